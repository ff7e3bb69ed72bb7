From 9e708133b309ed4ab970ed2f9fa74e7d09783cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 001/109] fix: use assume_a="pos" instead of the removed
 sym_pos argument of scipy.linalg.solve

Every Levenberg-Marquardt fit (all GST estimation) raised TypeError with the installed scipy.
---
 pygsti/optimize/customlm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/optimize/customlm.py b/pygsti/optimize/customlm.py
index 0e7a5e8..2ae514e 100644
--- a/pygsti/optimize/customlm.py
+++ b/pygsti/optimize/customlm.py
@@ -304,7 +304,7 @@ def custom_leastsq(obj_fn, jac_fn, x0, f_norm2_tol=1e-6, jac_norm_tol=1e-6,
                     success = True
                     #dx = _np.linalg.solve(JTJ, -JTf)
                     #NEW scipy: dx = _scipy.linalg.solve(JTJ, -JTf, assume_a='pos') #or 'sym'
-                    dx = _scipy.linalg.solve(JTJ, -JTf, sym_pos=True)
+                    dx = _scipy.linalg.solve(JTJ, -JTf, assume_a="pos")
                     if profiler: profiler.add_time("custom_leastsq: linsolve", tm)
                 #except _np.linalg.LinAlgError:
                 except _scipy.linalg.LinAlgError:
@@ -317,7 +317,7 @@ def custom_leastsq(obj_fn, jac_fn, x0, f_norm2_tol=1e-6, jac_norm_tol=1e-6,
                         df2 = (obj_fn(x + df2_dx) + obj_fn(x - df2_dx) - 2 * f) / \
                             df2_eps**2  # 2nd deriv of f along dx direction
                         JTdf2 = _np.dot(Jac.T, df2)
-                        dx2 = _scipy.linalg.solve(JTJ, -0.5 * JTdf2, sym_pos=True)
+                        dx2 = _scipy.linalg.solve(JTJ, -0.5 * JTdf2, assume_a="pos")
                         dx1 = dx.copy()
                         dx += dx2  # add acceleration term to dx
                     except _scipy.linalg.LinAlgError:
-- 
2.43.0


From 2393fad4e3d0d9e0602974b1aac8d8c25cb57ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 002/109] fix: use the builtin bool/int/float/complex/object in
 place of the numpy aliases removed in numpy 1.24

QubitGraph, ProcessorSpec, DataComparator, germ selection, quil output and the JSON encoding of arrays raised AttributeError.
---
 pygsti/algorithms/germselection.py | 2 +-
 pygsti/extras/crosstalk/core.py    | 2 +-
 pygsti/io/jsoncodec.py             | 2 +-
 pygsti/objects/circuit.py          | 2 +-
 pygsti/objects/datacomparator.py   | 4 ++--
 pygsti/objects/qubitgraph.py       | 4 ++--
 pygsti/report/workspace.py         | 2 +-
 pygsti/report/workspaceplots.py    | 4 ++--
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index 1564242..fdebeda 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -478,7 +478,7 @@ def calc_bulk_twirled_DDD(model, germsList, eps=1e-6, check=False,
     #NEW: faster, one-germ-at-a-time computation requires less memory.
     nGerms, _, vec_model_dim = twirledDeriv.shape
     twirledDerivDaggerDeriv = _np.empty((nGerms, vec_model_dim, vec_model_dim),
-                                        dtype=_np.complex)
+                                        dtype=complex)
     for i in range(nGerms):
         twirledDerivDaggerDeriv[i, :, :] = _np.dot(
             twirledDeriv[i, :, :].conjugate().T, twirledDeriv[i, :, :])
diff --git a/pygsti/extras/crosstalk/core.py b/pygsti/extras/crosstalk/core.py
index 98d6f1b..f28aa4b 100644
--- a/pygsti/extras/crosstalk/core.py
+++ b/pygsti/extras/crosstalk/core.py
@@ -982,7 +982,7 @@ def pairwise_indep_expts(q):
     for i in range(q):
         for a in range(q):
             for b in range(q):
-                vals[a*q+b,i] = _np.int(_np.mod(a*i+b,q))
+                vals[a*q+b,i] = int(_np.mod(a*i+b,q))
 
     length = _np.shape(vals)[0]
     return length, vals
diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 3842b99..a848958 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -196,7 +196,7 @@ def encode_std_obj(py_obj, binary):
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
         data = py_obj.tobytes() if binary else tostr(_base64.b64encode(py_obj.tobytes()))
-        if(py_obj.dtype == _np.object): raise TypeError("Cannot serialize object ndarrays!")
+        if(py_obj.dtype == object): raise TypeError("Cannot serialize object ndarrays!")
         return {'__ndarray__': data,
                 'dtype': descr,
                 'kind': kind,
diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 1925499..f3b14dd 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -74,7 +74,7 @@ def _np_to_quil_def_str(name, input_array):
 def _num_to_rqc_str(num):
     """Convert float to string to be included in RQC quil DEFGATE block
     (as written by _np_to_quil_def_str)."""
-    num = _np.complex(_np.real_if_close(num))
+    num = complex(_np.real_if_close(num))
     if _np.imag(num) == 0:
         output = str(_np.real(num))
         return output
diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index 64d4e52..8d52f00 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -72,11 +72,11 @@ def loglikelihoodRatio(nListList):
         The log-likehood ratio for this model comparison.
     """
     nListC = _np.sum(nListList, axis=0)
-    pListC = nListC / _np.float(_np.sum(nListC))
+    pListC = nListC / float(_np.sum(nListC))
     lC = loglikelihood(pListC, nListC)
     li_list = []
     for nList in nListList:
-        pList = _np.array(nList) / _np.float(_np.sum(nList))
+        pList = _np.array(nList) / float(_np.sum(nList))
         li_list.append(loglikelihood(pList, nList))
     lS = _np.sum(li_list)
     return -2 * (lC - lS)
diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 2ae19b0..6e5a316 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -144,12 +144,12 @@ class QubitGraph(object):
 
         #Determine whether we'll be using directions or not: set self.directions
         if initial_connectivity is not None:
-            if initial_connectivity.dtype == _np.bool:
+            if initial_connectivity.dtype == bool:
                 assert(direction_names is None), \
                     "`initial_connectivity` must have *integer* indices when `direction_names` is non-None"
             else:
                 #TODO: fix numpy integer-type test here
-                assert(initial_connectivity.dtype == _np.int), \
+                assert(initial_connectivity.dtype == int), \
                     ("`initial_connectivity` can only have dtype == bool or "
                      "int (but has dtype=%s)") % str(initial_connectivity.dtype)
                 assert(direction_names is not None), \
diff --git a/pygsti/report/workspace.py b/pygsti/report/workspace.py
index 794004e..2173337 100644
--- a/pygsti/report/workspace.py
+++ b/pygsti/report/workspace.py
@@ -1288,7 +1288,7 @@ class SwitchValue(object):
         self.dependencies = dependencies
 
         shape = [len(self.parent.positionLabels[i]) for i in dependencies]
-        self.base = _np.empty(shape, dtype=_np.object)
+        self.base = _np.empty(shape, dtype=object)
         index_all = (slice(None, None),) * len(shape)
         self.base[index_all] = NotApplicable(self.ws)
 
diff --git a/pygsti/report/workspaceplots.py b/pygsti/report/workspaceplots.py
index 29bc50a..825eb99 100644
--- a/pygsti/report/workspaceplots.py
+++ b/pygsti/report/workspaceplots.py
@@ -1928,7 +1928,7 @@ def _mx_fn_drifttvd(plaq, x, y, instabilityanalyzertuple):
 
 
 def _separate_outcomes_matrix(plaq, elements, fmt="%.3g"):
-    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, _, elIndices, _ in plaq.iter_simplified():
         list_mx[i, j] = ", ".join(["NaN" if _np.isnan(x) else
                                    (fmt % x) for x in elements[elIndices]])
@@ -1941,7 +1941,7 @@ def _outcome_to_str(x):  # same function as in writers.py
 
 
 def _addl_mx_fn_sl(plaq, x, y, extra):
-    slmx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    slmx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, opstr, elIndices, outcomes in plaq.iter_simplified():
         slmx[i, j] = ", ".join([_outcome_to_str(ol) for ol in outcomes])
     return slmx
-- 
2.43.0


From 088af54226441b00cc39fdd6826a9beed049d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 003/109] fix: select circuits from lists by index rather than
 through ragged numpy arrays

---
 pygsti/algorithms/germselection.py | 6 ++----
 pygsti/algorithms/grasp.py         | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index fdebeda..d15d5c4 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -974,8 +974,7 @@ def build_up(modelList, germsList, randomize=True,
     if force:
         if force == "singletons":
             weights[_np.where(germLengths == 1)] = 1
-            goodGerms = [germ for germ
-                         in _np.array(germsList)[_np.where(germLengths == 1)]]
+            goodGerms = [germ for germ in germsList if len(germ) == 1]
         else:  # force should be a list of Circuits
             for opstr in force:
                 weights[germsList.index(opstr)] = 1
@@ -1160,8 +1159,7 @@ def build_up_breadth(modelList, germsList, randomize=True,
     if force:
         if force == "singletons":
             weights[_np.where(germLengths == 1)] = 1
-            goodGerms = [germ for germ
-                         in _np.array(germsList)[_np.where(germLengths == 1)]]
+            goodGerms = [germ for germ in germsList if len(germ) == 1]
         else:  # force should be a list of Circuits
             for opstr in force:
                 weights[germsList.index(opstr)] = 1
diff --git a/pygsti/algorithms/grasp.py b/pygsti/algorithms/grasp.py
index e6a29c0..7259f6e 100644
--- a/pygsti/algorithms/grasp.py
+++ b/pygsti/algorithms/grasp.py
@@ -231,8 +231,7 @@ def grasp_local_search(initialSoln, scoreFn, elements, getNeighborsFn,
     while betterSolnFound:
         betterSolnFound = False
         weightsNeighbors = getNeighborsFn(currentWeights)
-        neighborSolns = [[element for element
-                          in _np.array(elements)[_np.nonzero(weightsNeighbor)]]
+        neighborSolns = [[elements[i] for i in _np.nonzero(weightsNeighbor)[0]]
                          for weightsNeighbor in weightsNeighbors]
         if feasibleTest == 'function':
             feasibleNeighborSolns = [(idx, soln) for idx, soln
-- 
2.43.0


From e70225aa0de00c0d6bf2bffc86e614bdf87e9b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 004/109] fix: retry failed GRASP germ-selection iterations
 instead of raising None

---
 pygsti/algorithms/germselection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index d15d5c4..542a927 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -1867,7 +1867,8 @@ def grasp_germ_set_optimization(modelList, germsList, alpha, randomize=True,
                     iteration + 1, iterations), 1)
             except Exception as e:
                 failCount += 1
-                raise e if (failCount == 10) else printer.warning(e)
+                if failCount == 10: raise e
+                printer.warning(e)
 
     finalScores = _np.array([finalScoreFn(localSoln)
                              for localSoln in localSolns])
-- 
2.43.0


From 7e9cc79c36e46631aeacb6d4972c5d50ae27f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 005/109] fix: ignore object's default __getstate__ when
 JSON/msgpack-encoding pyGSTi objects

---
 pygsti/io/jsoncodec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index a848958..1b5416b 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -21,6 +21,9 @@ import pygsti.objects
 
 def class_hasattr(instance, attr):
     """Helper function for checking if `instance.__class__` has an attribute"""
+    if attr == '__getstate__' and hasattr(object, '__getstate__'):
+        # `object` has a default __getstate__ in python 3.11+, which doesn't count
+        return instance.__class__.__getstate__ is not object.__getstate__
     return hasattr(instance.__class__, attr)
 
 
-- 
2.43.0


From 13b2ba59788b739af9c213b95dfe6854c90fd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 006/109] fix: keep name, time, args and class of labels when
 pickling, renaming, mapping and expanding them

---
 pygsti/objects/label.py | 77 ++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 2f2b3ed..7ad6236 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -285,7 +285,7 @@ class LabelTup(Label, tuple):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
-        return Label(self.name, mapped_sslbls)
+        return Label(self.name, mapped_sslbls, self.time)
 
     #OLD
     #def __iter__(self):
@@ -319,7 +319,7 @@ class LabelTup(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTup(self.name + s, self.sslbls)
+            return LabelTup.init(self.name + s, self[1:], self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -358,7 +358,7 @@ class LabelTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTup(newname, self.sslbls) if (self.name == oldname) else self
+        return LabelTup.init(newname, self[1:], self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -447,6 +447,25 @@ class LabelStr(Label, str):
         """
         return self.startswith(prefix)
 
+    def map_state_space_labels(self, mapper):
+        """
+        Return a copy of this Label with all of the state-space-labels
+        updated according to a mapping function.  Since this type of label
+        has no state-space-labels, it is simply returned.
+
+        Parameters
+        ----------
+        mapper : dict or function
+            A dictionary whose keys are the existing state-space-label values
+            and whose value are the new labels, or a function which takes a
+            single (existing label) argument and returns a new label.
+
+        Returns
+        -------
+        Label
+        """
+        return self
+
     def __str__(self):
         s = self[:]  # converts to a normal str
         if self.time != 0.0:
@@ -458,7 +477,7 @@ class LabelStr(Label, str):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelStr(self.name + str(s))
+            return LabelStr(self.name + str(s), self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -481,17 +500,17 @@ class LabelStr(Label, str):
     def __reduce__(self):
         # Need to tell serialization logic how to create a new Label since it's derived
         # from the immutable tuple type (so cannot have its state set after creation)
-        return (LabelStr, (str(self), self.time), None)
+        return (LabelStr, (self.name, self.time), None)
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
             faster serialization.
         """
-        return str(self)
+        return self.name
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelStr(newname) if (self.name == oldname) else self
+        return LabelStr(newname, self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -611,7 +630,7 @@ class LabelTupTup(Label, tuple):
         -------
         Label
         """
-        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)))
+        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)), self.time)
 
     def __str__(self):
         """
@@ -664,7 +683,7 @@ class LabelTupTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)))
+        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)), self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -702,7 +721,7 @@ class LabelTupTup(Label, tuple):
                 if i < len(expanded_comp):
                     ec.extend(expanded_comp[i].components)  # .components = vertical expansion
             #assert(len(ec) > 0), "Logic error!" #this is ok (e.g. an idle subcircuit)
-            ret.append(LabelTupTup.init(ec))
+            ret.append(ec[0] if len(ec) == 1 else LabelTupTup.init(ec))  # as Label(ec) would
         return tuple(ret)
 
     __hash__ = tuple.__hash__  # this is why we derive from tuple - using the
@@ -826,14 +845,16 @@ class CircuitLabel(Label, tuple):
         -------
         Label
         """
-        if isinstance(mapper, dict):
-            mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
+        if self.sslbls is None:
+            mapped_sslbls = None
+        elif isinstance(mapper, dict):
+            mapped_sslbls = tuple([mapper[sslbl] for sslbl in self.sslbls])
         else:  # assume mapper is callable
-            mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
+            mapped_sslbls = tuple([mapper(sslbl) for sslbl in self.sslbls])
         return CircuitLabel(self.name,
                             tuple((lbl.map_state_space_labels(mapper) for lbl in self.components)),
                             mapped_sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def __str__(self):
         """
@@ -900,7 +921,7 @@ class CircuitLabel(Label, tuple):
         return CircuitLabel(self.name,
                             tuple((x.replacename(oldname, newname) for x in self.components)),
                             self.sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1065,7 +1086,9 @@ class LabelTupWithArgs(Label, tuple):
         -------
         Label
         """
-        if isinstance(mapper, dict):
+        if self.sslbls is None:
+            mapped_sslbls = None
+        elif isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
@@ -1093,7 +1116,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTupWithArgs(self.name + s, self.sslbls, self.time, self.args)
+            return LabelTupWithArgs.init(self.name + s, self[self[1]:], self.time, self.args)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -1132,7 +1155,8 @@ class LabelTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupWithArgs(newname, self.sslbls, self.time, self.args) if (self.name == oldname) else self
+        return LabelTupWithArgs.init(newname, self[self[1]:], self.time, self.args) \
+            if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1171,6 +1195,7 @@ class LabelTupTupWithArgs(Label, tuple):
         """
         assert(time is None or isinstance(time, float)), "`time` must be a floating point value, received: " + str(time)
         assert(len(args) > 0), "`args` must be a nonempty list/tuple of hashable arguments"
+        args = tuple(args)
         tupOfLabels = (1 + len(args),) + args + tuple((Label(tup) for tup in tupOfTups))  # Note tup can be a Label
         # stores: (K, args, subLabels) where K is the index of the start of subLabels
 
@@ -1178,8 +1203,9 @@ class LabelTupTupWithArgs(Label, tuple):
         #    assert(all([(time == l.time or l.time is None) for l in tupOfLabels[1 + len(args):]])), \
         #        "Component times do not match compound label time!"
         if time is None:
-            time = 0.0 if len(tupOfLabels) == 0 else \
-                max([lbl.time for lbl in tupOfLabels])
+            subLabels = tupOfLabels[1 + len(args):]
+            time = 0.0 if len(subLabels) == 0 else \
+                max([lbl.time for lbl in subLabels])
         return cls.__new__(cls, tupOfLabels, time)
 
     def __new__(cls, tupOfLabels, time=0.0):
@@ -1198,6 +1224,7 @@ class LabelTupTupWithArgs(Label, tuple):
     def sslbls(self):
         # Note: if any component has sslbls == None, which signifies operating
         # on *all* qubits, then this label is on *all* qubits
+        if len(self.components) == 0: return None  # "idle" label containing no gates - *all* qubits idle
         s = set()
         for lbl in self[self[0]:]:
             if lbl.sslbls is None: return None
@@ -1264,8 +1291,8 @@ class LabelTupTupWithArgs(Label, tuple):
         -------
         Label
         """
-        return LabelTupTupWithArgs(tuple((lbl.map_state_space_labels(mapper)
-                                          for lbl in self.components)), self.time, self.args)
+        return LabelTupTupWithArgs.init(tuple((lbl.map_state_space_labels(mapper)
+                                               for lbl in self.components)), self.time, self.args)
 
     def __str__(self):
         """
@@ -1281,7 +1308,7 @@ class LabelTupTupWithArgs(Label, tuple):
         else:
             timestr = ""
 
-        return "[" + "".join([str(lbl) for lbl in self]) + argstr + timestr + "]"
+        return "[" + "".join([str(lbl) for lbl in self.components]) + argstr + timestr + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
@@ -1328,8 +1355,8 @@ class LabelTupTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTupWithArgs(tuple((x.replacename(oldname, newname) for x in self.components)),
-                                   self.time, self.args)
+        return LabelTupTupWithArgs.init(tuple((x.replacename(oldname, newname) for x in self.components)),
+                                        self.time, self.args)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
-- 
2.43.0


From 39c7b2d6a82ce638fea979ff62ad04c707b3e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 007/109] fix: keep unexpanded sub-circuits when copying a
 read-only Circuit

---
 pygsti/objects/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index f3b14dd..363cc9f 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -580,7 +580,8 @@ class Circuit(object):
         Circuit
         """
         if editable == "auto": editable = not self._static
-        return Circuit(self.layertup, self.line_labels, None, editable, self._str, check=False)
+        return Circuit(self.layertup, self.line_labels, None, editable, self._str, check=False,
+                       expand_subcircuits="default" if editable else False)  # a read-only copy has the same labels
 
     def clear(self):
         """
-- 
2.43.0


From 312c376b04fc7d40648564801ecd574714cbfc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 008/109] fix: circuit edits keep gate arguments and times,
 shift partial layers without overlaps and honour their index arguments

---
 pygsti/objects/circuit.py | 71 +++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 363cc9f..2534874 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -97,7 +97,7 @@ def _label_to_nested_lists_of_simple_labels(lbl, default_sslbls=None, always_ret
         lbl = _Label(lbl)  # e.g. a string or list/tuple of labels, etc.
     if lbl.issimple():  # a *simple* label - the elements of our lists
         if lbl.sslbls is None and default_sslbls is not None:
-            lbl = _Label(lbl.name, default_sslbls)
+            lbl = _Label(lbl.name, default_sslbls, lbl.time, lbl.args)
         return [lbl] if always_return_list else lbl
     return [_label_to_nested_lists_of_simple_labels(l, default_sslbls, False)
             for l in lbl.components]  # a *list*
@@ -410,9 +410,10 @@ class Circuit(object):
             if removed_not_idling and self._static:
                 raise ValueError("Cannot remove non-idling lines %s from a read-only circuit!" %
                                  str(removed_not_idling))
-            else:
+            elif removed_not_idling:
                 self.delete_lines(tuple(removed_not_idling))
         self._line_labels = tuple(value)
+        self._str = None  # regenerate, as the string contains the line labels
 
     @property
     def name(self):
@@ -619,7 +620,7 @@ class Circuit(object):
     def _proc_key_arg(self, key):
         """ Pre-process the key argument used by many methods """
         if isinstance(key, tuple):
-            if len(key) != 2: return IndexError("Index must be of the form <layerIndex>,<lineIndex>")
+            if len(key) != 2: raise IndexError("Index must be of the form <layerIndex>,<lineIndex>")
             layers = key[0]
             lines = key[1]
         else:
@@ -742,7 +743,7 @@ class Circuit(object):
                 else:
                     sslbls = set(sslbls)
                 if (strict and sslbls.issubset(lines)) or \
-                   (not strict and len(sslbls.intersection(lines)) >= 0):
+                   (not strict and len(sslbls.intersection(lines)) > 0):
                     ret_layer.append(l)
             ret.append(ret_layer)
 
@@ -829,7 +830,7 @@ class Circuit(object):
         if all_layers:  # then we'll add new layers as needed
             while len(lbls) > len(self._labels):
                 self._labels.append([])
-        elif len(layers) > 1:
+        elif not int_layers:
             assert(len(layers) == len(lbls)), \
                 "Block width mismatch: assigning %d layers to %d layers" % (len(lbls), len(layers))
 
@@ -896,22 +897,32 @@ class Circuit(object):
             for i in range(numToInsert):
                 self._labels.insert(insertBefore, [])
         else:  # insert layers only on given lines - shift existing labels to right
+            lines = self._proc_lines_arg(lines)
+            nExisting = len(self._labels)
+            for i in range(insertBefore, nExisting):  # check everything before moving anything
+                for lbl in self._layer_components(i):
+                    sslbls = self._nested_sslbls(lbl)
+                    if len(sslbls.intersection(lines)) > 0 and not sslbls.issubset(lines):
+                        raise ValueError("Cannot shift a block that is straddled by %s!" % _Label(lbl))
+                        #FUTURE: recover from this error gracefully so we don't leave the circuit in an intermediate
+                        # state?
+
             for i in range(numToInsert):
                 self._labels.append([])  # add blank layers at end
-            for i in range(insertBefore, insertBefore + numToInsert):
-                # move labels on `lines` to layer i+numToInsert
+            for i in reversed(range(insertBefore, nExisting)):
+                # move labels on `lines` to layer i + numToInsert (starting with the last layer)
                 inds_to_delete = []
-                for k, lbl in enumerate(self._labels[i]):
-                    sslbls = _sslbls_of_nested_lists_of_simple_labels(lbl)
-                    if len(sslbls.intersection(lines)) > 0:  # then we need to move this label
-                        if not sslbls.issubset(lines):
-                            raise ValueError("Cannot shift a block that is straddled by %s!" % _Label(lbl))
-                            #FUTURE: recover from this error gracefully so we don't leave the circuit in an intermediate
-                            #state?
+                for k, lbl in enumerate(self._layer_components(i)):
+                    if len(self._nested_sslbls(lbl).intersection(lines)) > 0:  # then we need to move this label
                         inds_to_delete.append(k)  # remove it from current layer
-                        self._labels[i + numToInsert].append(lbl)  # and put it in the destination layer
+                        self._append_layer_component(i + numToInsert, lbl)  # and put it in the destination layer
                 for k in reversed(inds_to_delete):
-                    del self._labels[i][k]
+                    self._remove_layer_component(i, k)
+
+    def _nested_sslbls(self, lbl):
+        """ The set of lines a component of one of this (editable) circuit's layers occupies """
+        sslbls = _sslbls_of_nested_lists_of_simple_labels(lbl)
+        return set(self.line_labels) if (sslbls is None) else set(sslbls)
 
     def append_idling_layers(self, numToInsert, lines=None):
         """
@@ -972,6 +983,8 @@ class Circuit(object):
         # lbls is expected to be a list/tuple of Label-like items, one per inserted layer
         lbls = tuple(map(toLabel, lbls))
         numLayersToInsert = len(lbls)
+        if layerToInsertBefore is None: layerToInsertBefore = len(self._labels)
+        elif layerToInsertBefore < 0: layerToInsertBefore = len(self._labels) + layerToInsertBefore
         self.insert_idling_layers(layerToInsertBefore, numLayersToInsert, lines)  # make space
         self.set_labels(lbls, slice(layerToInsertBefore, layerToInsertBefore + numLayersToInsert), lines)
         #Note: set_labels expects lbls to be a list/tuple of Label-like items b/c it's given a layer *slice*
@@ -1057,7 +1070,7 @@ class Circuit(object):
 
         if isinstance(lbls, Circuit):
             if line_labels == "auto": line_labels = lbls.line_labels
-            lbls = lbls.tup
+            lbls = lbls.layertup
         elif line_labels == "auto":
             line_labels = tuple(sorted(_accumulate_explicit_sslbls(lbls)))
 
@@ -1410,7 +1423,7 @@ class Circuit(object):
                 self.insert_idling_layers(i + 1, layers_to_add)
             for subc in circuits_to_expand:
                 self.clear_labels(slice(i, i + subc.depth()), subc.sslbls)  # remove the CircuitLabel
-                self.set_labels(subc.components * subc.reps, slice(i, i + subc.depth()),
+                self.set_labels(subc.expand_subcircuits(), slice(i, i + subc.depth()),
                                 subc.sslbls)  # dump in the contents
 
     def factorize_repetitions(self):
@@ -1594,7 +1607,7 @@ class Circuit(object):
             if len(extra) > 0:
                 raise ValueError("`line_order` had nonpresent line labels %s." % str(extra))
 
-            new_line_labels = line_order
+            new_line_labels = tuple(line_order)
         else:
             new_line_labels = self.line_labels + circuit.line_labels
 
@@ -1645,7 +1658,7 @@ class Circuit(object):
         def replace(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
                 if obj.name == old_gatename:
-                    newobj = _Label(new_gatename, obj.sslbls)
+                    newobj = obj.replacename(old_gatename, new_gatename)
                 else: newobj = obj
             else:
                 newobj = [replace(sub) for sub in obj]
@@ -1883,13 +1896,13 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(gatename): return mapper.get(gatename, None) \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(gatename)
 
         def map_names(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
                 if obj.issimple():  # *simple* label
                     new_name = mapper_func(obj.name)
-                    newobj = _Label(new_name, obj.sslbls) \
+                    newobj = obj.replacename(obj.name, new_name) \
                         if (new_name is not None) else obj
                 else:  # compound label
                     newobj = _Label([map_names(comp) for comp in obj.components])
@@ -1918,15 +1931,13 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(line_label): return mapper[line_label] \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(line_label)
 
         self._line_labels = tuple((mapper_func(l) for l in self.line_labels))
 
         def map_sslbls(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                new_sslbls = [mapper_func(l) for l in obj.sslbls] \
-                    if (obj.sslbls is not None) else None
-                newobj = _Label(obj.name, new_sslbls)
+                newobj = obj.map_state_space_labels(mapper_func)
             else:
                 newobj = [map_sslbls(sub) for sub in obj]
             return newobj
@@ -1972,6 +1983,7 @@ class Circuit(object):
         # OK even for static circuits because it won't affect the hashed value (labels only)
         assert(set(order) == set(self.line_labels)), "The line labels must be the same!"
         self._line_labels = tuple(order)
+        self._str = None  # regenerate, as the string contains the line labels
 
     def is_line_idling(self, line_label, idle_layer_labels=None):
         """
@@ -2072,6 +2084,7 @@ class Circuit(object):
         # to remove in self._labels (as all the lines are idling)
         self._line_labels = tuple([x for x in self.line_labels
                                    if x in all_sslbls])  # preserve order
+        self._str = None  # regenerate, as the string contains the line labels
 
     def replace_with_idling_line(self, line_label, clear_straddlers=True):
         """
@@ -2171,9 +2184,9 @@ class Circuit(object):
                 for b, lblB in enumerate(layerB_comps):
                     if isinstance(lblB, _Label):
                         #see if layerA happens to *not* have anything on lblB.sslbls:
-                        if layerA_sslbls is None or \
+                        if layerA_sslbls is not None and \
                            (lblB.sslbls is not None and len(set(lblB.sslbls).intersection(layerA_sslbls)) == 0):
-                            applies.append((-1, b, lblB.name, lblB.sslbls))  # shift label over
+                            applies.append((-1, b, lblB, lblB.sslbls))  # shift label over
                             break
 
                 if len(applies) > 0:
@@ -2185,7 +2198,7 @@ class Circuit(object):
                 ilayer_inds_to_remove = []
                 for a, b, new_Aname, sslbls in sorted_applies:
                     if a == -1:  # Note: new_Aname cannot be None here
-                        self._append_layer_component(ilayer, _Label(new_Aname, sslbls))
+                        self._append_layer_component(ilayer, new_Aname)  # (the label itself)
                     elif new_Aname is None:
                         ilayer_inds_to_remove.append(a)  # remove layer component - but wait to do so in order
                     else:
-- 
2.43.0


From 4b2bf65e2bf2f3b7e4e9c8b8a0128646045dbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 009/109] fix: treat empty layers as idle on every line, in
 read-only circuits too

---
 pygsti/objects/circuit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 2534874..79ab04d 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -2008,6 +2008,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # empty layers don't use any lines
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2036,6 +2037,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # empty layers don't use any lines
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2072,6 +2074,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # empty layers don't use any lines
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2411,12 +2414,13 @@ class Circuit(object):
         Label
         """
         layer_lbl = self.get_layer_label(j)  # (a Label)
-        if layer_lbl.sslbls is None:
+        components = list(layer_lbl.components)
+        if layer_lbl.sslbls is None and len(components) > 0:
             return layer_lbl  # all qubits used - no idles to pad
 
-        components = list(layer_lbl.components)
+        used_lines = layer_lbl.sslbls if (layer_lbl.sslbls is not None) else ()  # (an empty layer uses no lines)
         for line_lbl in self.line_labels:
-            if line_lbl not in layer_lbl.sslbls:
+            if line_lbl not in used_lines:
                 components.append(_Label(idleGateName, line_lbl))
         return _Label(components)
 
-- 
2.43.0


From 6e9db207d9e0ad8f70e017f317a924432081d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 010/109] fix: raise the intended error for straddled circuit
 blocks

---
 pygsti/objects/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 79ab04d..3366aa2 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -903,7 +903,7 @@ class Circuit(object):
                 for lbl in self._layer_components(i):
                     sslbls = self._nested_sslbls(lbl)
                     if len(sslbls.intersection(lines)) > 0 and not sslbls.issubset(lines):
-                        raise ValueError("Cannot shift a block that is straddled by %s!" % _Label(lbl))
+                        raise ValueError("Cannot shift a block that is straddled by %s!" % str(_Label(lbl)))
                         #FUTURE: recover from this error gracefully so we don't leave the circuit in an intermediate
                         # state?
 
@@ -1211,7 +1211,7 @@ class Circuit(object):
                     new_layer.append(l)
                 elif not delete_straddlers and not set(sslbls).issubset(lines):
                     raise ValueError(("Cannot remove a block that is straddled by "
-                                      "%s when `delete_straddlers` == False!") % _Label(l))
+                                      "%s when `delete_straddlers` == False!") % str(_Label(l)))
             self._labels[i] = new_layer
         self._line_labels = tuple([x for x in self.line_labels if x not in lines])
 
-- 
2.43.0


From 8fa3a746957a0b2a6b3cbf8542048c17ea2e7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 011/109] fix: Circuit.__contains__ looks for whole labels
 rather than substrings

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 3366aa2..21334f6 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -498,7 +498,7 @@ class Circuit(object):
 
     def __contains__(self, x):
         """Note: this is not covered by __iter__ for case of contained CircuitLabels """
-        return any([(x == layer or x in layer) for layer in self._labels])
+        return any([(x == layer or x in self._layer_components(i)) for i, layer in enumerate(self._labels)])
 
     def __add__(self, x):
         if not isinstance(x, Circuit):
-- 
2.43.0


From 9bcda8d5d67048ce67b2e1cf1dcd743c26f3b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 012/109] fix: check all lines of labels assigned to part of a
 circuit

---
 pygsti/objects/circuit.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 21334f6..3b2ffa9 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -810,7 +810,7 @@ class Circuit(object):
             if isinstance(lbls, Circuit):  # special case: "box" a circuit assigned to a single layer
                 lbls = lbls.as_label()     # converts Circuit => CircuitLabel
             lbls = toLabel(lbls)
-            lbls_sslbls = None if (lbls.sslbls is None) else set(lbls.sslbls)
+            lbls_sslbls = _accumulate_explicit_sslbls(lbls)
         else:
             if isinstance(lbls, Circuit):
                 assert(set(lbls.line_labels).issubset(self.line_labels)), \
@@ -821,8 +821,7 @@ class Circuit(object):
                 ("When assigning to a layer range (even w/len=1) `lbls` "
                  "must be  a *list or tuple* of label-like items")
             lbls = tuple(map(toLabel, lbls))
-            lbls_sslbls = None if any([l.sslbls is None for l in lbls]) \
-                else set(_itertools.chain(*[l.sslbls for l in lbls]))
+            lbls_sslbls = _accumulate_explicit_sslbls(lbls)
 
         if len(layers) == 0 or len(lines) == 0: return  # zero-area block
 
@@ -837,15 +836,15 @@ class Circuit(object):
         # when processing `lbls`: if a label has sslbls == None, then applies to all
         # the lines being assigned.  If sslbl != None, then the labels must be
         # contained within the line labels being assigned (unless we're allowed to expand)
-        if lbls_sslbls is not None:
-            new_line_labels = set(lbls_sslbls) - set(self.line_labels)
-            if all_lines:  # then allow new lines to be added
-                if len(new_line_labels) > 0:
-                    self._line_labels = self.line_labels + tuple(sorted(new_line_labels))  # sort?
-            else:
-                assert(len(new_line_labels) == 0), "Cannot add new lines %s" % str(new_line_labels)
-                assert(set(lbls_sslbls).issubset(lines)), \
-                    "Unallowed state space labels: %s" % str(set(lbls_sslbls) - set(lines))
+        new_line_labels = set(lbls_sslbls) - set(self.line_labels)
+        if all_lines:  # then allow new lines to be added
+            if len(new_line_labels) > 0:
+                self._line_labels = self.line_labels + tuple(sorted(new_line_labels))  # sort?
+                lines = self._line_labels
+        else:
+            assert(len(new_line_labels) == 0), "Cannot add new lines %s" % str(new_line_labels)
+            assert(set(lbls_sslbls).issubset(lines)), \
+                "Unallowed state space labels: %s" % str(set(lbls_sslbls) - set(lines))
 
         assert(set(lines).issubset(self.line_labels)), \
             ("Specified lines (%s) must be a subset of this circuit's lines"
@@ -893,6 +892,7 @@ class Circuit(object):
         if insertBefore is None: insertBefore = len(self._labels)
         elif insertBefore < 0: insertBefore = len(self._labels) + insertBefore
 
+        if numToInsert == 0: return  # nothing to do
         if lines is None:  # insert complete layers
             for i in range(numToInsert):
                 self._labels.insert(insertBefore, [])
-- 
2.43.0


From 7cc4aebf10ba16e0e3d3866883842d373ed8d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 013/109] fix: Circuit.__contains__ looks for whole labels,
 also within sub-circuits

---
 pygsti/objects/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 3b2ffa9..b1addc1 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -498,7 +498,11 @@ class Circuit(object):
 
     def __contains__(self, x):
         """Note: this is not covered by __iter__ for case of contained CircuitLabels """
-        return any([(x == layer or x in self._layer_components(i)) for i, layer in enumerate(self._labels)])
+        def contains(obj):  # obj is a Label or a (nested) list of Labels
+            if x == obj: return True
+            if isinstance(obj, _Label) and obj.issimple() and not isinstance(obj, _CircuitLabel): return False
+            return any([contains(sub) for sub in (obj.components if isinstance(obj, _Label) else obj)])
+        return any([contains(layer) for layer in self._labels])
 
     def __add__(self, x):
         if not isinstance(x, Circuit):
-- 
2.43.0


From efd7d204f00731c8b5110b93d069b32019700b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 014/109] fix: Circuit.parallelize(adjacent_only=True) never
 puts overlapping gates in one layer

---
 pygsti/objects/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index b1addc1..d7660b5 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1368,7 +1368,7 @@ class Circuit(object):
 
                     #update first_free
                     if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                        for k in first_free: first_free[k] = pos
+                        for k in first_free: first_free[k] = max(first_free[k], pos)
                     if c.sslbls is None:
                         for k in first_free: first_free[k] = pos + 1  # includes '*'
                     else:
@@ -1391,7 +1391,7 @@ class Circuit(object):
 
                 #update first_free
                 if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                    for k in first_free: first_free[k] = pos
+                    for k in first_free: first_free[k] = max(first_free[k], pos)
                 if lbl.sslbls is None:
                     for k in first_free: first_free[k] = pos + 1  # includes '*'
                 else:
-- 
2.43.0


From 38afb72b031f9132d4f1ba85e325afe7bab0e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 015/109] fix: convert_to_openqasm writes well-formed text for
 gates acting on all lines

---
 pygsti/objects/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index d7660b5..002fc5c 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -3028,7 +3028,8 @@ class Circuit(object):
             # Go through the (non-self.identity) gates in the layer and convert them to openqasm
             for gate in layer.components:
                 gate_qubits = gate.qubits if (gate.qubits is not None) else self.line_labels
-                assert(len(gate_qubits) <= 2), 'Gates on more than 2 qubits given; this is currently not supported!'
+                assert(len(gate_qubits) <= 2 or gate.qubits is None), \
+                    'Gates on more than 2 qubits given; this is currently not supported!'
 
                 # Find the openqasm for the gate.
                 if gate.name.__str__() != 'Iz':
@@ -3037,8 +3038,8 @@ class Circuit(object):
                     #If gate.qubits is None, gate is assumed to be single-qubit gate
                     #acting in parallel on all qubits.
                     if gate.qubits is None:
-                        for q in gate_qubits:
-                            openqasm += openqasm_for_gate + ' q[' + str(qubit_conversion[q]) + '];\n'
+                        openqasm_for_gate = ''.join([openqasm_for_gate + ' q[' + str(qubit_conversion[q]) + '];\n'
+                                                     for q in gate_qubits])
                     else:
                         for q in gate_qubits:
                             openqasm_for_gate += ' q[' + str(qubit_conversion[q]) + ']'
-- 
2.43.0


From 789ae822a5ab8103d7b66c550b00d19c5900ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 016/109] fix: occurrence tags in DataSet.get_row/set_row use
 the circuit's line labels, as when adding data

---
 pygsti/objects/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index dfa331a..869e149 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -937,7 +937,7 @@ class DataSet(object):
             circuit = _cir.Circuit.fromtup(circuit)
 
         if occurrence > 0:
-            circuit = circuit + _cir.Circuit(("#%d" % occurrence,))
+            circuit = circuit + _cir.Circuit(("#%d" % occurrence,), line_labels=circuit.line_labels)
 
         #Note: cirIndex value is either an int (non-static) or a slice (static)
         repData = self.repData[self.cirIndex[circuit]] \
@@ -969,7 +969,7 @@ class DataSet(object):
             circuit = _cir.Circuit(circuit)
 
         if occurrence > 0:
-            circuit = _cir.Circuit(circuit) + _cir.Circuit(("#%d" % occurrence,))
+            circuit = circuit + _cir.Circuit(("#%d" % occurrence,), line_labels=circuit.line_labels)
 
         if isinstance(outcomeDictOrSeries, dict):  # a dict of counts
             self.add_count_dict(circuit, outcomeDictOrSeries)
-- 
2.43.0


From 303dd8c78e0004ef713840c034b6764f64313fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 017/109] fix: DataSetRow.timeseries(..., timestamps) counts
 every entry of a time stamp

---
 pygsti/objects/dataset.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 869e149..286c073 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -544,21 +544,25 @@ class DataSetRow(object):
             if timestamps is not None:
                 while tsIndx < len(timestamps) and t > timestamps[tsIndx] \
                         and not _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12):
-                    times.append(timestamps[tsIndx])
-                    counts.append(0)
+                    if len(times) <= tsIndx:  # no data was found at this timestamp
+                        times.append(timestamps[tsIndx])
+                        counts.append(0)
                     tsIndx += 1
 
-            if oli in olis and (timestamps is None or _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12)):
+            if oli in olis and (timestamps is None
+                                or (tsIndx < len(timestamps)
+                                    and _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12))):
                 if not _np.isclose(t, last_t, rtol=0., atol=1e-12):
-                    times.append(t); tsIndx += 1
+                    times.append(t)
                     counts.append(0)
                     last_t = t
                 counts[-1] += 1 if (self.reps is None) else self.reps[i]
 
         if timestamps is not None:
             while tsIndx < len(timestamps):
-                times.append(timestamps[tsIndx])
-                counts.append(0)
+                if len(times) <= tsIndx:
+                    times.append(timestamps[tsIndx])
+                    counts.append(0)
                 tsIndx += 1
 
         return _np.array(times, self.dataset.timeType), \
-- 
2.43.0


From c10741c8c4134ac12b2acaa3829cc5d753df3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 018/109] fix: a DataSet owns its outcome-label index rather
 than sharing its source's

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 286c073..e219a6d 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -769,7 +769,7 @@ class DataSet(object):
         #                  values = integer indices mapping oliData (integers) onto
         #                           the outcome labels.
         if outcomeLabelIndices is not None:
-            self.olIndex = outcomeLabelIndices
+            self.olIndex = _OrderedDict(outcomeLabelIndices)  # copy b/c we may modify our olIndex later
             self.olIndex_max = max(self.olIndex.values()) if len(self.olIndex) > 0 else -1
         elif outcomeLabels is not None:
             tup_outcomeLabels = [_ld.OutcomeLabelDict.to_outcome(ol)
-- 
2.43.0


From 692d6701d78d3a9391234b2aa3a92ee21e6d0383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 019/109] fix: copies of data sets keep outcome indices and
 have their own auxiliary information

---
 pygsti/objects/dataset.py      | 8 ++++----
 pygsti/objects/multidataset.py | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index e219a6d..973a389 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1969,7 +1969,7 @@ class DataSet(object):
         if self.bStatic:
             return self  # doesn't need to be copied since data can't change
         else:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _copy.deepcopy(self.cirIndex)
             copyOfMe.oliData = [el.copy() for el in self.oliData]
@@ -1982,13 +1982,13 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
+            copyOfMe.auxInfo = _copy.deepcopy(self.auxInfo)
             return copyOfMe
 
     def copy_nonstatic(self):
         """ Make a non-static copy of this DataSet. """
         if self.bStatic:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _OrderedDict([(opstr, i) for i, opstr in enumerate(self.cirIndex.keys())])
             copyOfMe.oliData = []
@@ -2004,7 +2004,7 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
+            copyOfMe.auxInfo = _copy.deepcopy(self.auxInfo)
             return copyOfMe
         else:
             return self.copy()
diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index c6744fe..edce17a 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -539,7 +539,8 @@ class MultiDataSet(object):
                             circuitIndices=_copy.deepcopy(self.cirIndex) if (self.cirIndex is not None) else None,
                             outcomeLabelIndices=_copy.deepcopy(self.olIndex) if (self.olIndex is not None) else None,
                             collisionActions=self.collisionActions, comments=_copy.deepcopy(self.comments),
-                            comment=(self.comment + " copy") if self.comment else None, auxInfo=self.auxInfo)
+                            comment=(self.comment + " copy") if self.comment else None,
+                            auxInfo=_copy.deepcopy(self.auxInfo))
 
     def __getstate__(self):
         toPickle = {'cirIndexKeys': list(map(_cir.CompressedCircuit,
-- 
2.43.0


From c0f3fb1a87b5a3b5acc276f2749cded17af797a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 020/109] fix: rows of a static DataSet refuse assignment

---
 pygsti/objects/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 973a389..81513a0 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -396,6 +396,7 @@ class DataSetRow(object):
                                    % str(indexOrOutcomeLabel))
 
     def __setitem__(self, indexOrOutcomeLabel, val):
+        if self.dataset.bStatic: raise ValueError("Cannot set data in rows of a *static* DataSet.")
         if isinstance(indexOrOutcomeLabel, _numbers.Integral):
             index = indexOrOutcomeLabel; tup = val
             assert(len(tup) in (2, 3)), "Must set to a (<outcomeLabel>,<time>[,<repetitions>]) value"
-- 
2.43.0


From c1c99f750d5d9605a9cd3077dc402cfc94c2e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 021/109] fix: MultiDataSet keeps counts of data sets with and
 without repetitions, and zero counts in aggregates

---
 pygsti/objects/multidataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index edce17a..c962178 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -363,7 +363,7 @@ class MultiDataSet(object):
         agg_oli = _np.array(agg_oli, self.oliType)
         agg_time = _np.array(agg_time, self.timeType)
         agg_rep = _np.array(agg_rep, self.repType)
-        if _np.max(agg_rep) == 1: agg_rep = None  # don't store trivial reps
+        if _np.all(agg_rep == 1): agg_rep = None  # don't store trivial reps
 
         ds = _DataSet(agg_oli, agg_time, agg_rep,
                       circuitIndices=gstrSlices,
@@ -442,13 +442,14 @@ class MultiDataSet(object):
             # self.cirIndex is fine as is - no need to reconcile anything
             self.oliDict[datasetName] = ds_oliData
             self.timeDict[datasetName] = dataset.timeData
-            if dataset.repData is not None:
+            if dataset.repData is not None or self.repDict is not None:
                 if self.repDict is None:  # then build self.repDict
                     firstKey = list(self.oliDict.keys())[0]
                     dataLen = len(self.oliDict[firstKey])  # current length of self's data arrays
                     self.repDict = _OrderedDict(
                         [(nm, _np.ones(dataLen, self.repType)) for nm in self])
-                self.repDict[datasetName] = dataset.repData
+                self.repDict[datasetName] = dataset.repData if (dataset.repData is not None) \
+                    else _np.ones(len(ds_oliData), self.repType)
 
         else:
             # Merge data due to differences in self.cirIndex and dataset.cirIndex, which can
-- 
2.43.0


From 3641b8e51fca935916baf8c7857a711191023b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 022/109] fix: add_raw_series_data(recordZeroCnts=False)
 without repetition counts

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 81513a0..426cf5a 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1309,7 +1309,7 @@ class DataSet(object):
                 self.build_repetition_counts()
             repArray = _np.array(repCountList, self.repType)
 
-        if not recordZeroCnts:
+        if not recordZeroCnts and repArray is not None:
             # Go through repArray and remove any zeros, along with
             # corresponding elements of oliArray and timeArray
             mask = repArray != 0  # boolean array (note: == float comparison *is* desired)
-- 
2.43.0


From 7477b87afb5f621245e2c7d6ed3635ebfcd95a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 023/109] fix: filter_circuit(new_sslbls) returns a circuit on
 the new lines and keeps gate arguments

---
 pygsti/construction/circuitconstruction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 2b1aa2d..84bf7a2 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -859,9 +859,8 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
                or set(sublbl.sslbls).issubset(sslbls_to_keep):  # then keep this comp
 
                 if sslbl_map:  # update state space labels
-                    new_sslbls = None if (sublbl.sslbls is None) else \
-                        tuple((sslbl_map[x] for x in sublbl.sslbls))
-                    sublbls.append(_Lbl(sublbl.name, new_sslbls))
+                    sublbls.append(sublbl if (sublbl.sslbls is None) else
+                                   sublbl.map_state_space_labels(sslbl_map))
                 else:  # leave labels as-is
                     sublbls.append(sublbl)
 
@@ -885,4 +884,4 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
             # is just an idle: add idle placeholder.
             if idle is not None: lbls.append(_Lbl(idle))
 
-    return _cir.Circuit(lbls, line_labels=sslbls_to_keep)
+    return _cir.Circuit(lbls, line_labels=new_sslbls if (new_sslbls is not None) else sslbls_to_keep)
-- 
2.43.0


From 73466cac940ac5f02e8c5810df0db3c2dd153198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 024/109] fix: DataSetRow.fractions includes counts at all
 times

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 426cf5a..f995dda 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -484,7 +484,7 @@ class DataSetRow(object):
         repetitions of each outcome label in the `outcomes` list, or
         equivalently, each outcome label index in this rows `.oli` member.
         """
-        cnts = self._get_counts(all_outcomes)
+        cnts = self._get_counts(all_outcomes=all_outcomes)
         total = sum(cnts.values())
         return _OrderedDict([(k, cnt / total) for k, cnt in cnts.items()])
 
-- 
2.43.0


From 1620a3df1eeb633a4e2672aecba74cf8cafce93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 025/109] fix: MultiDataSet.add_dataset leaves the auxiliary
 information of earlier data sets alone

---
 pygsti/objects/multidataset.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index c962178..b34326b 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -519,11 +519,8 @@ class MultiDataSet(object):
 
         # Update auxInfo
         if update_auxinfo and dataset.auxInfo:
-            if len(self.auxInfo) == 0:
-                self.auxInfo.update(dataset.auxInfo)
-            else:
-                for circuit, aux in dataset.auxInfo.items():
-                    self.auxInfo[circuit].update(aux)
+            for circuit, aux in dataset.auxInfo.items():
+                self.auxInfo[circuit].update(aux)  # (don't share the dictionaries within dataset.auxInfo)
 
     def __str__(self):
         s = "MultiDataSet containing: %d datasets, each with %d strings\n" % (
-- 
2.43.0


From d40172deeb807a8bbbd88cbd608314c6c23e9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 026/109] fix: report new outcome labels first when assigning
 to rows of a static DataSet

---
 pygsti/objects/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index f995dda..203f16a 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -396,8 +396,8 @@ class DataSetRow(object):
                                    % str(indexOrOutcomeLabel))
 
     def __setitem__(self, indexOrOutcomeLabel, val):
-        if self.dataset.bStatic: raise ValueError("Cannot set data in rows of a *static* DataSet.")
         if isinstance(indexOrOutcomeLabel, _numbers.Integral):
+            if self.dataset.bStatic: raise ValueError("Cannot set data in rows of a *static* DataSet.")
             index = indexOrOutcomeLabel; tup = val
             assert(len(tup) in (2, 3)), "Must set to a (<outcomeLabel>,<time>[,<repetitions>]) value"
             ol = _ld.OutcomeLabelDict.to_outcome(tup[0])  # strings -> tuple outcome labels
@@ -420,6 +420,7 @@ class DataSetRow(object):
             outcomeIndxToLookFor = self.dataset.olIndex.get(outcomeLbl, None)
             for i, outcomeIndx in enumerate(self.oli):
                 if outcomeIndx == outcomeIndxToLookFor:
+                    if self.dataset.bStatic: raise ValueError("Cannot set data in rows of a *static* DataSet.")
                     self.reps[i] = count; break
             else:  # need to add a new label & entry to reps[]
                 raise NotImplementedError("Cannot create new outcome labels by assignment")
-- 
2.43.0


From 821c78bcd829d7bc3d61d8fd8324e275e33376ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 027/109] fix: static DataSets can be truncated to circuits
 without data

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 203f16a..dc6620c 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -815,7 +815,7 @@ class DataSet(object):
             if len(self.cirIndex) > 0:
                 maxOlIndex = self.olIndex_max
                 if bStatic:
-                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else 0
+                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else -1
                                 for i in self.cirIndex.values()]) <= maxOlIndex)
                     # self.oliData.shape[0] > maxIndex doesn't make sense since cirIndex holds slices
                 else:
-- 
2.43.0


From 42b0d7a8e4490c7bfff37dc54ba2d6823e644c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:05 +0000
Subject: [PATCH 028/109] fix: renaming outcome labels of a static DataSet
 updates cached counts

---
 pygsti/objects/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index dc6620c..b2e7be3 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -2315,3 +2315,5 @@ class DataSet(object):
         #Note: rebuild reverse-dict self.ol:
         self.olIndex = new_olIndex
         self.ol = _OrderedDict([(i, ol) for (ol, i) in self.olIndex.items()])
+        if self.bStatic:  # cached counts have the old labels
+            self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}
-- 
2.43.0


From 0e6bafb00aa1c51167870a830760c3ae38157177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 029/109] fix: text data files hold counts, repetitions and
 time stamps exactly

---
 pygsti/io/stdinput.py |  2 +-
 pygsti/io/writers.py  | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index c73d159..7f2bb36 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -422,7 +422,7 @@ class StdInputParser(object):
                         elif parts[0] == 'outcomes:':
                             current_item['outcomes'] = parts[1:]  # no conversion needed
                         elif parts[0] == 'repetitions:':
-                            current_item['repetitions'] = [int(x) for x in parts[1:]]
+                            current_item['repetitions'] = [float(x) for x in parts[1:]]
                         elif parts[0] == 'aux:':
                             current_item['aux'] = parse_comment(" ".join(parts[1:]), filename, iLine)
                         else:
diff --git a/pygsti/io/writers.py b/pygsti/io/writers.py
index 5826a2c..29ff8e3 100644
--- a/pygsti/io/writers.py
+++ b/pygsti/io/writers.py
@@ -63,6 +63,12 @@ def write_empty_dataset(filename, circuit_list,
                                                            circuit.weight) if appendWeightsColumn else "") + '\n')
 
 
+def _num_to_str(x):
+    """ Shortest text which reads back as exactly the number `x` """
+    x = float(x)
+    return "%d" % x if (x.is_integer() and abs(x) < 1e15) else repr(x)
+
+
 def _outcome_to_str(x):
     if isinstance(x, str): return x
     else: return ":".join([str(i) for i in x])
@@ -147,24 +153,24 @@ def write_dataset(filename, dataset, circuit_list=None,
             if fixedColumnMode:
                 #output '--' for outcome labels that aren't present in this row
                 output.write(circuit_to_write.str + "  "
-                             + "  ".join([(("%g" % counts[ol]) if (ol in counts) else '--')
+                             + "  ".join([(_num_to_str(counts[ol]) if (ol in counts) else '--')
                                           for ol in outcomeLabels]))
                 if dataRow.aux: output.write(" # %s" % str(repr(dataRow.aux)))  # write aux info
                 output.write('\n')  # finish the line
 
             elif trivial_times:  # use expanded label:count format
                 output.write(circuit_to_write.str + "  "
-                             + "  ".join([("%s:%g" % (_outcome_to_str(ol), counts[ol]))
+                             + "  ".join([("%s:%s" % (_outcome_to_str(ol), _num_to_str(counts[ol])))
                                           for ol in outcomeLabels if ol in counts]))
                 if dataRow.aux: output.write(" # %s" % str(repr(dataRow.aux)))  # write aux info
                 output.write('\n')  # finish the line
 
             else:
                 output.write(circuit_to_write.str + "\n"
-                             + "times: " + "  ".join(["%g" % tm for tm in dataRow.time]) + "\n"
+                             + "times: " + "  ".join([_num_to_str(tm) for tm in dataRow.time]) + "\n"
                              + "outcomes: " + "  ".join([_outcome_to_str(ol) for ol in dataRow.outcomes]) + "\n")
                 if dataRow.reps is not None:
-                    output.write("repetitions: " + "  ".join(["%d" % rep for rep in dataRow.reps]) + "\n")
+                    output.write("repetitions: " + "  ".join([_num_to_str(rep) for rep in dataRow.reps]) + "\n")
                 if dataRow.aux:
                     output.write("aux: " + str(repr(dataRow.aux)) + "\n")
                 output.write('\n')  # blank line between circuits
@@ -230,7 +236,7 @@ def write_multidataset(filename, multidataset, circuit_list=None, outcomeLabelOr
             # circuit_to_write = _objs.DataSet.strip_occurence_tag(circuit) \
             #     if strip_occurence_tags else circuit
             cnts = [ds[circuit].counts.get(ol, '--') for ds in datasets for ol in outcomeLabels]
-            output.write(circuit.str + "  " + "  ".join([(("%g" % cnt) if (cnt != '--') else cnt)
+            output.write(circuit.str + "  " + "  ".join([(_num_to_str(cnt) if (cnt != '--') else cnt)
                                                          for cnt in cnts]) + '\n')
             #write aux info
             if multidataset.auxInfo[circuit]:
-- 
2.43.0


From f93e01fc7f3374aaaf6405017806ff6caeb1ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 030/109] fix: read compound outcome labels of time-stamped and
 multi-data-set files as written

---
 pygsti/io/stdinput.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 7f2bb36..97d43e8 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -420,7 +420,7 @@ class StdInputParser(object):
                         if parts[0] == 'times:':
                             current_item['times'] = [float(x) for x in parts[1:]]
                         elif parts[0] == 'outcomes:':
-                            current_item['outcomes'] = parts[1:]  # no conversion needed
+                            current_item['outcomes'] = [tuple(x.split(':')) for x in parts[1:]]
                         elif parts[0] == 'repetitions:':
                             current_item['repetitions'] = [float(x) for x in parts[1:]]
                         elif parts[0] == 'aux:':
@@ -677,7 +677,7 @@ class StdInputParser(object):
             if wordsInColLabel[-1] == 'count':
                 if len(wordsInColLabel) > 3:
                     _warnings.warn("Column label '%s' has more words than were expected (3)" % colLabel)
-                outcomeLabel = wordsInColLabel[-2]
+                outcomeLabel = tuple(wordsInColLabel[-2].split(":"))
                 dsLabel = wordsInColLabel[-3]
                 if dsLabel not in dsOutcomeLabels:
                     dsOutcomeLabels[dsLabel] = [outcomeLabel]
@@ -687,7 +687,7 @@ class StdInputParser(object):
             elif wordsInColLabel[-1] == 'frequency':
                 if len(wordsInColLabel) > 3:
                     _warnings.warn("Column label '%s' has more words than were expected (3)" % colLabel)
-                outcomeLabel = wordsInColLabel[-2]
+                outcomeLabel = tuple(wordsInColLabel[-2].split(":"))
                 dsLabel = wordsInColLabel[-3]
                 if '%s count total' % dsLabel not in colLabels:
                     raise ValueError("Frequency columns specified without"
@@ -701,14 +701,14 @@ class StdInputParser(object):
 
         for dsLabel, outcomeLabels in dsOutcomeLabels.items():
             if '%s count total' % dsLabel in colLabels:
-                if '1' in outcomeLabels and '0' not in outcomeLabels:
-                    dsOutcomeLabels[dsLabel].append('0')
+                if ('1',) in outcomeLabels and ('0',) not in outcomeLabels:
+                    dsOutcomeLabels[dsLabel].append(('0',))
                     iTotal = colLabels.index('%s count total' % dsLabel)
-                    impliedCounts1Q.append((dsLabel, '0', iTotal))
-                if '0' in outcomeLabels and '1' not in outcomeLabels:
-                    dsOutcomeLabels[dsLabel].append('1')
+                    impliedCounts1Q.append((dsLabel, ('0',), iTotal))
+                elif ('0',) in outcomeLabels and ('1',) not in outcomeLabels:
+                    dsOutcomeLabels[dsLabel].append(('1',))
                     iTotal = colLabels.index('%s count total' % dsLabel)
-                    impliedCounts1Q.append((dsLabel, '1', iTotal))
+                    impliedCounts1Q.append((dsLabel, ('1',), iTotal))
 
             #TODO - add standard count completion for 2Qubit case?
 
@@ -736,10 +736,10 @@ class StdInputParser(object):
 
         for dsLabel, outcomeLabel, iTotCol in impliedCounts1Q:
             if colValues[iTotCol] == '--': raise ValueError("Mising total (== '--')!")
-            if outcomeLabel == '0':
-                countDicts[dsLabel]['0'] = colValues[iTotCol] - countDicts[dsLabel]['1']
-            elif outcomeLabel == '1':
-                countDicts[dsLabel]['1'] = colValues[iTotCol] - countDicts[dsLabel]['0']
+            if outcomeLabel == ('0',):
+                countDicts[dsLabel][('0',)] = colValues[iTotCol] - countDicts[dsLabel][('1',)]
+            elif outcomeLabel == ('1',):
+                countDicts[dsLabel][('1',)] = colValues[iTotCol] - countDicts[dsLabel][('0',)]
 
         #TODO - add standard count completion for 2Qubit case?
         return countDicts
-- 
2.43.0


From 1f6014a8dd80bcc265ec6414dbd06260abe533ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 031/109] fix: missing and bad entries of multi-data-set files
 no longer take the previous line's counts

---
 pygsti/io/stdinput.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 97d43e8..4d0641c 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -588,9 +588,6 @@ class StdInputParser(object):
             datasets[dsLabel] = _objs.DataSet(outcomeLabels=outcomeLabels,
                                               collisionAction=collisionAction)
 
-        dsCountDicts = _OrderedDict()
-        for dsLabel in dsOutcomeLabels: dsCountDicts[dsLabel] = {}
-
         nLines = 0
         with open(filename, 'r') as datafile:
             nLines = sum(1 for line in datafile)
@@ -637,6 +634,7 @@ class StdInputParser(object):
                                       check=False, expand_subcircuits=False)  # , lookup=lookupDict)
                 #Note: don't expand subcircuits because we've already directed parse_dataline to expand if needed
                 bBad = ('BAD' in valueList)  # supresses warnings
+                dsCountDicts = _OrderedDict([(dsLabel, {}) for dsLabel in dsOutcomeLabels])
                 self._fillMultiDataCountDicts(dsCountDicts, fillInfo, valueList)
 
                 bSkip = False
@@ -716,6 +714,9 @@ class StdInputParser(object):
         return dsOutcomeLabels, fillInfo
 
     def _fillMultiDataCountDicts(self, countDicts, fillInfo, colValues):
+        if 'BAD' in colValues:
+            return countDicts  # indicates entire row is known to be bad (no counts)
+
         countCols, freqCols, impliedCounts1Q = fillInfo
 
         for dsLabel, outcomeLabel, iCol in countCols:
-- 
2.43.0


From 2a5c84153aa55722211c3b9d910146ae3372718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 032/109] fix: write_multidataset writes auxiliary information
 where it is read back

---
 pygsti/io/writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/writers.py b/pygsti/io/writers.py
index 29ff8e3..fcb436e 100644
--- a/pygsti/io/writers.py
+++ b/pygsti/io/writers.py
@@ -237,7 +237,7 @@ def write_multidataset(filename, multidataset, circuit_list=None, outcomeLabelOr
             #     if strip_occurence_tags else circuit
             cnts = [ds[circuit].counts.get(ol, '--') for ds in datasets for ol in outcomeLabels]
             output.write(circuit.str + "  " + "  ".join([(_num_to_str(cnt) if (cnt != '--') else cnt)
-                                                         for cnt in cnts]) + '\n')
+                                                         for cnt in cnts]))
             #write aux info
             if multidataset.auxInfo[circuit]:
                 output.write(" # %s" % str(repr(multidataset.auxInfo[circuit])))
-- 
2.43.0


From b93c76c75de90afc72dfabfcaac2c0e8c8dba888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 033/109] fix: time-stamped data files keep auxiliary strings
 and data of repeated circuits

---
 pygsti/io/stdinput.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 4d0641c..1912234 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -411,6 +411,7 @@ class StdInputParser(object):
                         #add current item & look for next one
                         dataset.add_raw_series_data(current_item['circuit'], current_item['outcomes'],
                                                     current_item['times'], current_item.get('repetitions', None),
+                                                    overwriteExisting=bool(collisionAction != "aggregate"),
                                                     recordZeroCnts=recordZeroCnts, aux=current_item.get('aux', None),
                                                     update_ol=False)  # for performance - to this once at the end.
                         current_item.clear()
@@ -423,8 +424,8 @@ class StdInputParser(object):
                             current_item['outcomes'] = [tuple(x.split(':')) for x in parts[1:]]
                         elif parts[0] == 'repetitions:':
                             current_item['repetitions'] = [float(x) for x in parts[1:]]
-                        elif parts[0] == 'aux:':
-                            current_item['aux'] = parse_comment(" ".join(parts[1:]), filename, iLine)
+                        elif parts[0] == 'aux:':  # (use `line`, as auxiliary values may contain '#' or spaces)
+                            current_item['aux'] = parse_comment(line[len('aux:'):], filename, iLine)
                         else:
                             raise ValueError("Invalid circuit data-line prefix: '%s'" % parts[0])
 
@@ -432,6 +433,7 @@ class StdInputParser(object):
             #add final circuit info (no blank line at end of file)
             dataset.add_raw_series_data(current_item['circuit'], current_item['outcomes'],
                                         current_item['times'], current_item.get('repetitions', None),
+                                        overwriteExisting=bool(collisionAction != "aggregate"),
                                         recordZeroCnts=recordZeroCnts, aux=current_item.get('aux', None),
                                         update_ol=False)  # for performance - to this once at the end.
 
-- 
2.43.0


From e196c5081a6ead85a5cdfefe0ade327baa886774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 034/109] fix: load_dataset returns data sets saved in binary
 format

---
 pygsti/io/loaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/loaders.py b/pygsti/io/loaders.py
index d713d68..644f2b9 100644
--- a/pygsti/io/loaders.py
+++ b/pygsti/io/loaders.py
@@ -111,7 +111,7 @@ def load_dataset(filename, cache=False, collisionAction="aggregate",
                                        recordZeroCnts=recordZeroCnts,
                                        ignoreZeroCountLines=ignoreZeroCountLines,
                                        withTimes=withTimes)
-        return ds
+    return ds
 
 
 def load_multidataset(filename, cache=False, collisionAction="aggregate",
-- 
2.43.0


From 9793b827fbafc66c7705cc3067085a4018c86b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 035/109] fix: MultiDataSet accepts data sets without any
 counts

---
 pygsti/objects/multidataset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index b34326b..60d206e 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -489,8 +489,9 @@ class MultiDataSet(object):
                 if l2 > l1:  # insert 0-reps into self's data arrays
                     nToInsert = l2 - l1; insertAt = off + slc.stop
                     for nm in self:
-                        oliVal = self.oliDict[nm][insertAt - 1]    # just repeat the final bin's outcome
-                        timeVal = self.timeDict[nm][insertAt - 1]  # index and timestamp in 0-count bins
+                        # just repeat the final bin's outcome index and timestamp in 0-count bins (if there is one)
+                        oliVal = self.oliDict[nm][insertAt - 1] if len(self.oliDict[nm]) > 0 else 0
+                        timeVal = self.timeDict[nm][insertAt - 1] if len(self.timeDict[nm]) > 0 else 0
                         self.oliDict[nm] = _np.insert(self.oliDict[nm], insertAt,
                                                       oliVal * _np.ones(nToInsert, self.oliType))
                         self.timeDict[nm] = _np.insert(self.timeDict[nm], insertAt,
@@ -511,8 +512,9 @@ class MultiDataSet(object):
                     self.timeDict[datasetName][new_slc_part1] = ds_timeData[other_slc]
                     self.repDict[datasetName][new_slc_part1] = ds_repData[other_slc]
 
-                    timeVal = ds_timeData[other_slc.stop - 1]  # index and timestamp in 0-count bins
-                    oliVal = ds_oliData[other_slc.stop - 1]       # just repeat the final bin's outcome
+                    # just repeat the final bin's outcome index and timestamp in 0-count bins (if there is one)
+                    timeVal = ds_timeData[other_slc.stop - 1] if len(ds_timeData) > 0 else 0
+                    oliVal = ds_oliData[other_slc.stop - 1] if len(ds_oliData) > 0 else 0
                     self.oliDict[datasetName][new_slc_part2] = oliVal
                     self.timeDict[datasetName][new_slc_part2] = timeVal
                     # (leave self.repDict[datasetName] with zeros in remaining "part2" of slice)
-- 
2.43.0


From c05f6400bb3a7bec8e9160bec0ef9d5c865be02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 036/109] fix: copies of a DataSet keep its comment

---
 pygsti/objects/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index b2e7be3..58c5f7e 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1972,7 +1972,7 @@ class DataSet(object):
             return self  # doesn't need to be copied since data can't change
         else:
             copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
-                               collisionAction=self.collisionAction)
+                               collisionAction=self.collisionAction, comment=self.comment)
             copyOfMe.cirIndex = _copy.deepcopy(self.cirIndex)
             copyOfMe.oliData = [el.copy() for el in self.oliData]
             copyOfMe.timeData = [el.copy() for el in self.timeData]
@@ -1991,7 +1991,7 @@ class DataSet(object):
         """ Make a non-static copy of this DataSet. """
         if self.bStatic:
             copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
-                               collisionAction=self.collisionAction)
+                               collisionAction=self.collisionAction, comment=self.comment)
             copyOfMe.cirIndex = _OrderedDict([(opstr, i) for i, opstr in enumerate(self.cirIndex.keys())])
             copyOfMe.oliData = []
             copyOfMe.timeData = []
-- 
2.43.0


From 2c8ebf34a48b0224628f68da5de2a41ab9a77f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 037/109] fix: static data sets without repetition counts can
 be loaded from binary files

---
 pygsti/objects/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 58c5f7e..fbf93a7 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -2264,6 +2264,8 @@ class DataSet(object):
             self.timeData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
             if useReps:
                 self.repData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
+            else:
+                self.repData = None
             self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}  # init cnt_cache afresh
         else:
             self.oliData = []
-- 
2.43.0


From ada9738d67675f731a0e47d46a2813ec1090db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:54 +0000
Subject: [PATCH 038/109] fix: stochastic and depolarizing operations start at,
 and keep when copied, their rates

---
 pygsti/objects/operation.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index eb6873f..afaa732 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2155,20 +2155,27 @@ class StochasticNoiseOp(LinearOperator):
             self.stochastic_superops.append(_bt.change_basis(std_superop, 'std', self.basis))
 
         #Setup initial parameters
-        self.params = _np.zeros(self.basis.size - 1, 'd')  # note that basis.dim can be < self.dim (OK)
-        if initial_rates is not None:
-            assert(len(initial_rates) == self.basis.size - 1), \
-                "Expected %d initial rates but got %d!" % (len(initial_rates), self.basis.size - 1)
-            self.params[:] = self._rates_to_params(initial_rates)
+        if initial_rates is None:
+            initial_rates = _np.zeros(self.basis.size - 1, 'd')  # note that basis.dim can be < self.dim (OK)
+        assert(len(initial_rates) == self.basis.size - 1), \
+            "Expected %d initial rates but got %d!" % (self.basis.size - 1, len(initial_rates))
+        self.params = self._rates_to_params(initial_rates)
         assert(evotype in ("densitymx", "svterm", "cterm"))
 
         if evotype == "densitymx":  # for now just densitymx is supported
-            rep = replib.DMOpRep_Dense(_np.ascontiguousarray(_np.identity(dim, 'd')))
+            rep = replib.DMOpRep_Dense(_np.ascontiguousarray(self._construct_errormap(dim)))
         else:
             raise ValueError("Invalid evotype '%s' for %s" % (evotype, self.__class__.__name__))
 
         LinearOperator.__init__(self, rep, evotype)
 
+    def _construct_errormap(self, dim):
+        """ The dense error superoperator given by the current parameters """
+        errormap = _np.identity(dim, 'd')
+        for rate, ss in zip(self._params_to_rates(self.params), self.stochastic_superops):
+            errormap += rate * ss
+        return errormap
+
     def _rates_to_params(self, rates):
         return _np.sqrt(_np.array(rates))
 
@@ -2190,7 +2197,8 @@ class StochasticNoiseOp(LinearOperator):
         StochasticNoiseOp
             A copy of this object.
         """
-        copyOfMe = StochasticNoiseOp(self.dim, self.basis, self._evotype, self._params_to_rates(self.to_vector()))
+        copyOfMe = StochasticNoiseOp(self.dim, self.basis, self._evotype)
+        copyOfMe.from_vector(self.params)
         return self._copy_gpindices(copyOfMe, parent)
 
     #to_dense / to_sparse?
@@ -2363,12 +2371,7 @@ class StochasticNoiseOp(LinearOperator):
         None
         """
         self.params[:] = v
-
-        # Create dense error superoperator from paramvec
-        errormap = _np.identity(self.dim)
-        for rate, ss in zip(self._params_to_rates(v), self.stochastic_superops):
-            errormap += rate * ss
-        self._rep.base[:, :] = errormap
+        self._rep.base[:, :] = self._construct_errormap(self.dim)
         if not nodirty: self.dirty = True
 
     #Transform functions? (for gauge opt)
@@ -2429,7 +2432,8 @@ class DepolarizeOp(StochasticNoiseOp):
         DepolarizeOp
             A copy of this object.
         """
-        copyOfMe = DepolarizeOp(self.dim, self.basis, self.evotype, self._params_to_rates(self.to_vector())[0])
+        copyOfMe = DepolarizeOp(self.dim, self.basis, self._evotype)
+        copyOfMe.from_vector(self.params)
         return self._copy_gpindices(copyOfMe, parent)
 
 
-- 
2.43.0


From 0216e1da9683b1a2d5a18a65abcd78bbf7472c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 039/109] fix: float and tuple error rates keep the gate's
 ideal action in crosstalk-free models

---
 pygsti/construction/modelconstruction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/construction/modelconstruction.py b/pygsti/construction/modelconstruction.py
index afd22dd..1f6d3ec 100644
--- a/pygsti/construction/modelconstruction.py
+++ b/pygsti/construction/modelconstruction.py
@@ -1071,10 +1071,12 @@ def build_crosstalk_free_model(nQubits, gate_names, error_rates, nonstd_gate_uni
             assert(len(errs) + 1 == gateMx.shape[0]), \
                 "Invalid number of Pauli stochastic rates: got %d but expected %d" % (len(errs), gateMx.shape[0] - 1)
             gate = _op.StochasticNoiseOp(len(errs) + 1, "pp", evotype, initial_rates=errs)
+            if not factory:  # the noise follows the ideal gate (factories are prefixed below)
+                gate = _op.ComposedOp([_op.StaticDenseOp(gateMx, evotype), gate])
 
         elif isinstance(errs, float):
             #Make a depolarization operator:
-            gate = _op.LindbladOp.from_operation_matrix(gateMx, ham_basis=None, nonham_basis="pp",
+            gate = _op.LindbladOp.from_operation_matrix(gateMx, gateMx, ham_basis=None, nonham_basis="pp",
                                                         param_mode="depol", nonham_mode="diagonal",
                                                         truncate=True, mxBasis="pp", evotype=evotype)
             perPauliRate = errs / len(gate.errorgen.other_basis.labels)
-- 
2.43.0


From c3a44ddd1973cdee9da6793544a9a208342776e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 040/109] fix: 'd' (signed, uniform depolarization) Lindblad
 parameterizations can be built

---
 pygsti/tools/optools.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pygsti/tools/optools.py b/pygsti/tools/optools.py
index 35f3b87..563d24f 100644
--- a/pygsti/tools/optools.py
+++ b/pygsti/tools/optools.py
@@ -2349,6 +2349,11 @@ def lindblad_projections_to_paramvals(hamProjs, otherProjs, param_mode="cptp",
                 otherProj = _np.mean(otherProjs.clip(1e-16, 1e100))
                 otherParams = _np.array(_np.sqrt(_np.real(otherProj)), 'd')  # shape (1,)
 
+            elif param_mode == "reldepol":  # otherParams is a *single-element* 1D vector of the common diagonal el
+                assert(truncate or all([_np.isclose(v, otherProjs[0]) for v in otherProjs])), \
+                    "Diagonal lindblad coefficients are not equal (truncate == False)!"
+                otherParams = _np.array([_np.mean(otherProjs.real)], 'd')  # shape (1,)
+
             elif param_mode == "cptp":  # otherParams is a 1D vector of the sqrts of diagonal els
                 assert(truncate or all([v >= -1e-12 for v in otherProjs])), \
                     "Lindblad coefficients are not CPTP (truncate == False)!"
@@ -2370,6 +2375,12 @@ def lindblad_projections_to_paramvals(hamProjs, otherProjs, param_mode="cptp",
                 otherParams = _np.concatenate(([_np.sqrt(_np.real(depolProj))],
                                                otherProjs[1].real))  # shape (1+(bsO-1),)
 
+            elif param_mode == "reldepol":  # otherParams is a single (signed) depol value + affine coeffs
+                assert(truncate or all([_np.isclose(v, otherProjs[0, 0]) for v in otherProjs[0]])), \
+                    "Diagonal lindblad coefficients are not equal (truncate == False)!"
+                otherParams = _np.concatenate(([_np.mean(otherProjs[0].real)],
+                                               otherProjs[1].real))  # shape (1+(bsO-1),)
+
             elif param_mode == "cptp":  # Note: does not constrained affine coeffs to CPTP
                 assert(truncate or all([v >= -1e-12 for v in otherProjs[0]])), \
                     "Lindblad coefficients are not CPTP (truncate == False)!"
-- 
2.43.0


From fffa01a9c0242026423715865ea98611d0faf306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 041/109] fix: composite operations decoded from json or
 msgpack follow the parameters of their parts

---
 pygsti/objects/operation.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index afaa732..b994307 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -920,6 +920,15 @@ class LinearOperator(_modelmember.ModelMember):
     def __setstate__(self, state):
         self.__dict__.update(state)
 
+    def __pygsti_setstate__(self, state):
+        # Used when decoding json and msgpack, which (unlike pickle) don't preserve the
+        # references of composite representations to the representations of their parts.
+        self.__setstate__(state)
+        self._relink_rep()
+
+    def _relink_rep(self):
+        pass  # nothing to do when this operation has no parts
+
     #Note: no __str__ fn
 
     @staticmethod
@@ -2852,6 +2861,11 @@ class LindbladOp(LinearOperator):
         self._update_rep()  # updates self._rep
         #Done with __init__(...)
 
+    def _relink_rep(self):
+        """ Make this object's representation refer to the representations of its parts. """
+        if self._evotype == "densitymx":
+            self._rep = LindbladOp(self.unitary_postfactor, self.errorgen, self.dense_rep)._rep
+
     def submembers(self):
         """
         Get the ModelMember-derived objects contained in this one.
@@ -4117,6 +4131,10 @@ class ComposedOp(LinearOperator):
         self._rep.base[:, :] = mx
         self._rep.base.flags.writeable = False
 
+    def _relink_rep(self):
+        """ Make this object's representation refer to the representations of its parts. """
+        self._rep = ComposedOp(self.factorops, self.dim, self._evotype, self.dense_rep)._rep
+
     def submembers(self):
         """
         Get the ModelMember-derived objects contained in this one.
@@ -4624,6 +4642,10 @@ class ExponentiatedOp(LinearOperator):
 
         LinearOperator.__init__(self, rep, evotype)
 
+    def _relink_rep(self):
+        """ Make this object's representation refer to the representations of its parts. """
+        self._rep = ExponentiatedOp(self.exponentiated_op, self.power, self._evotype)._rep
+
     def submembers(self):
         """
         Get the ModelMember-derived objects contained in this one.
@@ -4875,6 +4897,10 @@ class EmbeddedOp(LinearOperator):
             d['_dirty'] = d['dirty']; del d['dirty']
         self.__dict__.update(d)
 
+    def _relink_rep(self):
+        """ Make this object's representation refer to the representations of its parts. """
+        self._rep = EmbeddedOp(self.state_space_labels, self.targetLabels, self.embedded_op, self.dense_rep)._rep
+
     def submembers(self):
         """
         Get the ModelMember-derived objects contained in this one.
@@ -5845,6 +5871,10 @@ class ComposedErrorgen(LinearOperator):
                 return _np.take(_np.take(hessianMx, wrtFilter1, axis=1),
                                 wrtFilter2, axis=2)
 
+    def _relink_rep(self):
+        """ Make this object's representation refer to the representations of its parts. """
+        self._rep = ComposedErrorgen(self.factors, self.dim, self._evotype)._rep
+
     def submembers(self):
         """
         Get the ModelMember-derived objects contained in this one.
-- 
2.43.0


From 7eba699637e3b7fa4055ab7287e651caf4bf72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 042/109] fix: text model files with operation labels, integer
 line labels, composite bases, static instruments and CPTP elements can be
 read back

---
 pygsti/io/stdinput.py | 79 ++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 1912234..c88068d 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -845,6 +845,22 @@ def _evalRowList(rows, bComplex):
                      'complex' if bComplex else 'd')
 
 
+def _make_composite_basis(name, state_space_labels):
+    """
+    Construct the basis with a composite name, e.g. `"pp*pp"` or `"pp+gm"`, by
+    matching the parts of `name` with the parts of a state space.
+    """
+    blocks = []
+    for block_name, block_lbls in zip(name.split('+'), state_space_labels.labels):
+        dims = [state_space_labels.labeldims[lbl] for lbl in block_lbls]
+        if '*' in block_name:
+            blocks.append(_objs.TensorProdBasis([_objs.BuiltinBasis(nm, d)
+                                                 for nm, d in zip(block_name.split('*'), dims)]))
+        else:
+            blocks.append(_objs.BuiltinBasis(block_name, int(_np.product(dims))))
+    return blocks[0] if len(blocks) == 1 else _objs.DirectSumBasis(blocks)
+
+
 def read_model(filename):
     """
     Parse a model file into a Model object.
@@ -893,7 +909,8 @@ def read_model(filename):
                         start = lbl_and_dim.index('(')
                         end = lbl_and_dim.rindex(')')
                         lbl, dim = lbl_and_dim[:start], lbl_and_dim[start + 1:end]
-                        tpb_lbls.append(lbl.strip())
+                        lbl = lbl.strip()
+                        tpb_lbls.append(int(lbl) if lbl.isdigit() else lbl)  # integer labels are read as integers
                         tpb_dims.append(int(dim.strip()))
                     tpbs_lbls.append(tuple(tpb_lbls))
                     tpbs_dims.append(tuple(tpb_dims))
@@ -906,7 +923,10 @@ def read_model(filename):
     else:
         # otherwise we'll try to infer one from state space labels
         if state_space_labels is not None:
-            basis = _objs.Basis.cast(basis_abbrev, state_space_labels.dim)
+            if '*' in basis_abbrev or '+' in basis_abbrev:  # e.g. "pp*pp", the name of a composite basis
+                basis = _make_composite_basis(basis_abbrev, state_space_labels)
+            else:
+                basis = _objs.Basis.cast(basis_abbrev, state_space_labels.dim)
         else:
             raise ValueError("Cannot infer basis dimension!")
 
@@ -950,7 +970,7 @@ def read_model(filename):
             elif state == "look for label or property":
                 assert(cur_property == ""), "Logic error!"
 
-                parts = line.split(':')
+                parts = line.split(':', 1)  # labels can contain colons, e.g. "GATE: Gx:0"
                 if any([line.startswith(pre) for pre in ("BASIS", "GAUGEGROUP", "STATESPACE")]):
                     pass  # handled above
 
@@ -1048,6 +1068,27 @@ def read_model(filename):
 
         return lmx
 
+    label_parser = _CircuitParser()
+    label_parser.lookup = None
+
+    def to_oplabel(label_str):
+        """ Convert the text of an operation's label (e.g. "Gcnot:0:1") to a Label """
+        if ':' not in label_str and ';' not in label_str: return label_str  # just a name
+        lbls, _ = label_parser.parse(label_str)
+        return lbls[0] if len(lbls) == 1 else label_str
+
+    def to_cptp_op(mx, unitary_post, label):
+        """ Create a CPTP-constrained operation with (dense) matrix `mx` """
+        nQubits = _np.log2(mx.shape[0]) / 2.0
+        bQubits = bool(abs(nQubits - round(nQubits)) < 1e-10)  # integer # of qubits?
+        proj_basis = "pp" if (basis == "pp" or bQubits) else basis
+        #Truncate because rounding `mx` to the printed digits can make it very slightly non-CP
+        op = _objs.LindbladDenseOp.from_operation_matrix(
+            mx, unitary_post, proj_basis, proj_basis, truncate=True, mxBasis=basis)
+        if not _np.allclose(op.todense(), mx, atol=1e-6):
+            raise ValueError("The map of %s cannot be written as the exponential of a CPTP error generator!" % label)
+        return op
+
     #Now process top_level_objs to create a Model
     for obj in top_level_objs:  # `obj` is a dict of object info
         cur_typ = obj['type']
@@ -1064,11 +1105,7 @@ def read_model(filename):
             props = obj['properties']
             assert("PureVec" in props and "ErrgenMx" in props)  # must always be Liouville reps!
             qty = _evalRowList(props["ErrgenMx"], bComplex=False)
-            nQubits = _np.log2(qty.size) / 2.0
-            bQubits = bool(abs(nQubits - round(nQubits)) < 1e-10)  # integer # of qubits?
-            proj_basis = "pp" if (basis == "pp" or bQubits) else basis
-            errorMap = _objs.LindbladDenseOp.from_operation_matrix(
-                qty, None, proj_basis, proj_basis, truncate=False, mxBasis=basis)  # unitary postfactor = Id
+            errorMap = to_cptp_op(qty, None, cur_label)  # unitary postfactor = Id
             pureVec = _objs.StaticSPAMVec(_np.transpose(_evalRowList(props["PureVec"], bComplex=False)), typ="prep")
             mdl.preps[cur_label] = _objs.LindbladSPAMVec(pureVec, errorMap, "prep")
         elif cur_typ == "STATIC-PREP":
@@ -1096,20 +1133,18 @@ def read_model(filename):
                 props = obj['properties']
                 assert("ErrgenMx" in props)  # and it must always be a Liouville rep!
                 qty = _evalRowList(props["ErrgenMx"], bComplex=False)
-                nQubits = _np.log2(qty.size) / 2.0
-                bQubits = bool(abs(nQubits - round(nQubits)) < 1e-10)  # integer # of qubits?
-                proj_basis = "pp" if (basis == "pp" or bQubits) else basis
-                errorMap = _objs.LindbladDenseOp.from_operation_matrix(
-                    qty, None, proj_basis, proj_basis, truncate=False, mxBasis=basis)  # unitary postfactor = Id
+                errorMap = to_cptp_op(qty, None, cur_label)  # unitary postfactor = Id
+                effects = [(lbl, _objs.StaticSPAMVec(Evec.todense(), typ="effect"))
+                           for lbl, Evec in effects]  # the base POVM has no parameters of its own
                 base_povm = _objs.UnconstrainedPOVM(effects)  # could try to detect a ComputationalBasisPOVM in FUTURE
                 mdl.povms[cur_label] = _objs.LindbladPOVM(errorMap, base_povm)
             else: assert(False), "Logic error!"
 
         elif cur_typ == "GATE":
-            mdl.operations[cur_label] = _objs.FullDenseOp(
+            mdl.operations[to_oplabel(cur_label)] = _objs.FullDenseOp(
                 get_liouville_mx(obj))
         elif cur_typ == "TP-GATE":
-            mdl.operations[cur_label] = _objs.TPDenseOp(
+            mdl.operations[to_oplabel(cur_label)] = _objs.TPDenseOp(
                 get_liouville_mx(obj))
         elif cur_typ == "CPTP-GATE":
             qty = get_liouville_mx(obj)
@@ -1117,29 +1152,25 @@ def read_model(filename):
                 unitary_post = get_liouville_mx(obj, "Ref")
             except ValueError:
                 unitary_post = None
-            nQubits = _np.log2(qty.shape[0]) / 2.0
-            bQubits = bool(abs(nQubits - round(nQubits)) < 1e-10)  # integer # of qubits?
-            proj_basis = "pp" if (basis == "pp" or bQubits) else basis
-            mdl.operations[cur_label] = _objs.LindbladDenseOp.from_operation_matrix(
-                qty, unitary_post, proj_basis, proj_basis, truncate=False, mxBasis=basis)
+            mdl.operations[to_oplabel(cur_label)] = to_cptp_op(qty, unitary_post, cur_label)
 
         elif cur_typ == "STATIC-GATE":
-            mdl.operations[cur_label] = _objs.StaticDenseOp(get_liouville_mx(obj))
+            mdl.operations[to_oplabel(cur_label)] = _objs.StaticDenseOp(get_liouville_mx(obj))
 
         elif cur_typ in ("Instrument", "TP-Instrument"):
             matrices = []
             for sub_obj in obj['objects']:
                 sub_typ = sub_obj['type']
                 qty = get_liouville_mx(sub_obj)
-                mxOrOp = _objs.StaticDenseOp(qty) if cur_typ == "STATIC-IGATE" \
+                mxOrOp = _objs.StaticDenseOp(qty) if sub_typ == "STATIC-IGATE" \
                     else qty  # just add numpy array `qty` to matrices list
                 # and it will be made into a fully-param gate.
                 matrices.append((sub_obj['label'], mxOrOp))
 
             if cur_typ == "Instrument":
-                mdl.instruments[cur_label] = _objs.Instrument(matrices)
+                mdl.instruments[to_oplabel(cur_label)] = _objs.Instrument(matrices)
             elif cur_typ == "TP-Instrument":
-                mdl.instruments[cur_label] = _objs.TPInstrument(matrices)
+                mdl.instruments[to_oplabel(cur_label)] = _objs.TPInstrument(matrices)
             else: assert(False), "Logic error!"
         else:
             raise ValueError("Unknown type: %s!" % cur_typ)
-- 
2.43.0


From 528ab2196b177d69592be17f3dce475765dc165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 043/109] fix: numpy complex scalars and structured arrays keep
 their types in json and msgpack

---
 pygsti/io/jsoncodec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 1b5416b..043de9c 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -179,7 +179,7 @@ def encode_std_obj(py_obj, binary):
                               for k, v in py_obj.items()]}
     elif isinstance(py_obj, _uuid.UUID):
         return {'__uuid__': str(py_obj.hex)}
-    elif isinstance(py_obj, complex):
+    elif isinstance(py_obj, complex) and not isinstance(py_obj, _np.generic):  # numpy's are encoded below
         rep = py_obj.__repr__()  # a string
         data = tobin(rep) if binary else rep  # binary if need be
         return {'__complex__': data}
@@ -194,7 +194,7 @@ def encode_std_obj(py_obj, binary):
         # otherwise, store the corresponding array protocol type string:
         if py_obj.dtype.kind == 'V':
             kind = 'V'
-            descr = tobin(py_obj.dtype.descr) if binary else tostr(py_obj.dtype.descr)
+            descr = py_obj.dtype.descr  # a list of tuples
         else:
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
-- 
2.43.0


From c36c1c51b5cd844a0254b7d058c481bd589394c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 044/109] fix: StandardGST protocols can be written to a
 directory

---
 pygsti/protocols/gst.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 3d987bd..3094416 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -466,7 +466,6 @@ class StandardGST(_proto.Protocol):
         self.auxfile_types['gaugeopt_suite'] = 'pickle'
         self.auxfile_types['gaugeopt_target'] = 'pickle'
         self.auxfile_types['advancedOptions'] = 'pickle'
-        self.auxfile_types['comm'] = 'reset'
 
     #def run_using_germs_and_fiducials(self, dataset, target_model, prep_fiducials, meas_fiducials, germs, maxLengths):
     #    design = StandardGSTDesign(target_model, prep_fiducials, meas_fiducials, germs, maxLengths)
-- 
2.43.0


From 8b80d1556d1663ce1a6dffc444cbb3ca2fc3cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 045/109] fix: experiment designs loaded from a directory keep
 the type of their qubit labels; data of a part can be loaded from a path
 string

---
 pygsti/protocols/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/protocols/protocol.py b/pygsti/protocols/protocol.py
index 696f735..ecb7da2 100644
--- a/pygsti/protocols/protocol.py
+++ b/pygsti/protocols/protocol.py
@@ -429,6 +429,7 @@ class ExperimentDesign(_TreeNode):
         dirname = _pathlib.Path(dirname)
         ret = cls.__new__(cls)
         ret.__dict__.update(_io.load_meta_based_dir(dirname / 'edesign', 'auxfile_types'))
+        if isinstance(ret.qubit_labels, list): ret.qubit_labels = tuple(ret.qubit_labels)  # b/c json makes tuples->lists
         ret._init_children(dirname, 'edesign')
         ret._loaded_from = str(dirname.absolute())
         return ret
@@ -935,7 +936,7 @@ class ProtocolData(_TreeNode):
         #Load dataset or multidataset based on what files exist
         dataset_files = sorted(list(data_dir.glob('*.txt')))
         if len(dataset_files) == 0:  # assume same dataset as parent
-            if parent is None: parent = ProtocolData.from_dir(dirname / '..')
+            if parent is None: parent = ProtocolData.from_dir(p / '..')
             dataset = parent.dataset
         elif len(dataset_files) == 1 and dataset_files[0].name == 'dataset.txt':  # a single dataset.txt file
             dataset = _io.load_dataset(dataset_files[0], verbosity=0)
-- 
2.43.0


From f78fa347c7f2639426168eafe77173493d693fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 046/109] fix: cloud crosstalk models place the specified
 errors on the specified qubits, for every gate placement and composition type

---
 pygsti/construction/nqnoiseconstruction.py | 17 ++++++++++++-----
 pygsti/objects/cloudnoisemodel.py          |  6 +++++-
 pygsti/objects/operation.py                |  6 +++---
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pygsti/construction/nqnoiseconstruction.py b/pygsti/construction/nqnoiseconstruction.py
index c654f59..6de8261 100644
--- a/pygsti/construction/nqnoiseconstruction.py
+++ b/pygsti/construction/nqnoiseconstruction.py
@@ -558,7 +558,8 @@ def build_cloud_crosstalk_model(nQubits, gate_names, error_rates, nonstd_gate_un
 
     nQubit_dim = 2**nQubits if evotype in ('statevec', 'stabilizer') else 4**nQubits
 
-    orig_error_rates = error_rates.copy()
+    orig_error_rates = error_rates
+    error_rates = error_rates.copy()  # so we don't alter the caller's dictionary
     cparser = _CircuitParser()
     cparser.lookup = None  # lookup - functionality removed as it wasn't used
     for k, v in orig_error_rates.items():
@@ -627,7 +628,7 @@ def build_cloud_crosstalk_model(nQubits, gate_names, error_rates, nonstd_gate_un
         target_nQubits = len(target_labels)
 
         if return_what == "auto":  # then just base return type on errcomp_type
-            return_what == "errgen" if errcomp_type == "errorgens" else "errmap"
+            return_what = "errgen" if errcomp_type == "errorgens" else "errmap"
 
         assert(stencil is None or errs is None), "Cannot specify both `errs` and `stencil`!"
 
@@ -676,7 +677,9 @@ def build_cloud_crosstalk_model(nQubits, gate_names, error_rates, nonstd_gate_un
                             bel_sslbls = tuple(integerized_sslbls)
                         else:
                             bel_name = bel
-                            bel_sslbls = target_labels
+                            # Note: a stencil gets applied to other targets, so use relative labels there
+                            bel_sslbls = tuple(["@%d" % i for i in range(target_nQubits)]) \
+                                if return_what == "stencil" else tuple(target_labels)
                         #REMOVE print("DB: Nm + sslbls: ",bel_name,bel_sslbls)
 
                         if sslbls is None:
@@ -690,7 +693,10 @@ def build_cloud_crosstalk_model(nQubits, gate_names, error_rates, nonstd_gate_un
 
                     # keep track of errors by the qubits they act on, as only each such
                     # set will have it's own LindbladErrorgen
-                    sslbls = tuple(sorted(sslbls))
+                    order = sorted(range(len(sslbls)), key=lambda i: (isinstance(sslbls[i], str), sslbls[i]))
+                    if all([len(bel_name) == len(sslbls) for bel_name in local_nm[1:]]):  # (otherwise caught below)
+                        local_nm[1:] = [''.join([bel_name[i] for i in order]) for bel_name in local_nm[1:]]
+                    sslbls = tuple([sslbls[i] for i in order])
                     local_nm = tuple(local_nm)  # so it's hashable
                     if sslbls not in distinct_errorqubits:
                         distinct_errorqubits[sslbls] = _collections.OrderedDict()
@@ -700,7 +706,8 @@ def build_cloud_crosstalk_model(nQubits, gate_names, error_rates, nonstd_gate_un
                         distinct_errorqubits[sslbls][local_nm] = val
 
             elif isinstance(errs, float):  # depolarization, action on only target qubits
-                sslbls = tuple(range(target_nQubits)) if return_what == "stencil" else target_labels
+                sslbls = tuple(["@%d" % i for i in range(target_nQubits)]) if return_what == "stencil" \
+                    else tuple(target_labels)
                 # Note: we use relative target indices in a stencil
                 basis = _BuiltinBasis('pp', 4**target_nQubits)  # assume we always use Pauli basis?
                 distinct_errorqubits[sslbls] = _collections.OrderedDict()
diff --git a/pygsti/objects/cloudnoisemodel.py b/pygsti/objects/cloudnoisemodel.py
index ac1d9ad..d1b9715 100644
--- a/pygsti/objects/cloudnoisemodel.py
+++ b/pygsti/objects/cloudnoisemodel.py
@@ -1193,7 +1193,11 @@ class CloudNoiseLayerLizard(_ImplicitLayerLizard):
 
         components = layerlbl.components
         if len(components) == 0:  # or layerlbl == 'Gi': # OLD: special case: 'Gi' acts as global idle!
-            return self.simpleop_blks['layers']['globalIdle']  # idle!
+            if _Lbl('globalIdle') in self.simpleop_blks['layers']:
+                return self.simpleop_blks['layers']['globalIdle']  # idle!
+            ret = Composed([], dim=self.model.dim, evotype=self.model._evotype)  # a perfect idle
+            self.model._init_virtual_obj(ret)
+            return ret
 
         #Compose target operation from layer's component labels, which correspond
         # to the perfect (embedded) target ops in op_blks
diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index b994307..9793082 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5566,9 +5566,9 @@ class ComposedErrorgen(LinearOperator):
         #assert(all([self.sparse == eg.sparse for eg in errgens_to_compose])), \
         #    "All error generators must have the same sparsity (%s expected)!" % self.sparse
 
-        self.matrix_basis = errgens_to_compose[0].matrix_basis \
-            if len(errgens_to_compose) > 0 else None
-        assert(all([self.matrix_basis == eg.matrix_basis for eg in errgens_to_compose])), \
+        matrix_bases = [eg.matrix_basis for eg in errgens_to_compose if eg.matrix_basis is not None]
+        self.matrix_basis = matrix_bases[0] if len(matrix_bases) > 0 else None  # empty compositions have no basis
+        assert(all([self.matrix_basis == mxb for mxb in matrix_bases])), \
             "All error generators must have the same matrix basis (%s expected)!" % self.matrix_basis
 
         #Create representation object
-- 
2.43.0


From 40469f3daa8191f8afec424952cfc8ef3688241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 047/109] fix: circuits that differ only in their measurement
 can be evaluated in one list

---
 pygsti/objects/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/model.py b/pygsti/objects/model.py
index 408f0d5..510e8af 100644
--- a/pygsti/objects/model.py
+++ b/pygsti/objects/model.py
@@ -1040,7 +1040,7 @@ class OpModel(Model):
                         # don't add spamtuples we don't observe
 
                         elabel_indx = od.get(elabel, None)
-                        if elabel is None:
+                        if elabel_indx is None:
                             # although we've seen this raw string, we haven't
                             # seen elabel yet - add it at end
                             elabel_indx = len(od)
-- 
2.43.0


From c66b6b10b9956daa73d53c69d9408b04ce03424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 048/109] fix: parameters added to a model after shared ones
 are not given indices already in use

---
 pygsti/objects/model.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pygsti/objects/model.py b/pygsti/objects/model.py
index 510e8af..878e657 100644
--- a/pygsti/objects/model.py
+++ b/pygsti/objects/model.py
@@ -691,17 +691,24 @@ class OpModel(Model):
         #  another in the iteration order will have gpindices which are lower - and
         #  when new indices are allocated we try to maintain this normal order by
         #  inserting them at an appropriate place in the parameter vector.
-        #  off : holds the current point where new params should be inserted
-        #  shift : holds the amount existing parameters that are > offset (not in `memo`) should be shifted
-        # Note: Adding more explicit "> offset" logic may obviate the need for the memo arg?
+        #  off : holds the current point where new params should be inserted - this is always beyond
+        #    all the parameters of the objects already processed, so these never need to be shifted again.
+        #  shift : holds the total amount of parameters inserted so far
+        #  new_index : holds the new index of each existing parameter
         memo = set()  # keep track of which object's gpindices have been set
+        new_index = _np.arange(len(v))
+
+        def get_moved(gpinds):  # shift just the parameters that lie at or beyond the insertion point(s)
+            inds = [int(new_index[j]) if j < len(new_index) else j + shift for j in
+                    (_slct.indices(gpinds) if isinstance(gpinds, slice) else gpinds)]
+            if len(inds) == 0: return gpinds
+            return _slct.list_to_slice(inds, array_ok=True, require_contiguous=True) \
+                if isinstance(gpinds, slice) else _np.array(inds, _np.int64)
+
         for lbl, obj in self._iter_parameterized_objs():
 
-            if shift > 0 and obj.gpindices is not None:
-                if isinstance(obj.gpindices, slice):
-                    obj.set_gpindices(_slct.shift(obj.gpindices, shift), self, memo)
-                else:
-                    obj.set_gpindices(obj.gpindices + shift, self, memo)  # works for integer arrays
+            if shift > 0 and obj.gpindices is not None and id(obj) not in memo:
+                obj.set_gpindices(get_moved(obj.gpindices), self, memo)
 
             if obj.gpindices is None or obj.parent is not self:
                 #Assume all parameters of obj are new independent parameters
@@ -718,8 +725,9 @@ class OpModel(Model):
                 #shift += obj.num_params()
                 #off += obj.num_params()
 
+                new_index[new_index >= off] += num_new_params
                 shift += num_new_params
-                off += num_new_params
+                off = max(off + num_new_params, max(obj.gpindices_as_array(), default=-1) + 1)
                 #print("DEBUG: %s: alloc'd & inserted %d new params.  indices = " \
                 #      % (str(lbl),obj.num_params()), obj.gpindices, " off=",off)
             else:
@@ -735,7 +743,7 @@ class OpModel(Model):
                         if i >= L: v[i] = w[ii]
                     #print("DEBUG:    --> added %d new params" % (M+1-L))
                 if M >= 0:  # M == -1 signifies this object has no parameters, so we'll just leave `off` alone
-                    off = M + 1
+                    off = max(off, M + 1)
 
         self._paramvec = v
         #print("DEBUG: Done rebuild: %d params" % len(v))
-- 
2.43.0


From 405b95aa05ab235886c2b5764c6a73685d33cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 049/109] fix: bulk probabilities and derivatives of
 state-vector and stabilizer map models use the kernels of their type
 (segmentation fault)

---
 pygsti/objects/mapforwardsim.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pygsti/objects/mapforwardsim.py b/pygsti/objects/mapforwardsim.py
index a50e1ae..6ae16d9 100644
--- a/pygsti/objects/mapforwardsim.py
+++ b/pygsti/objects/mapforwardsim.py
@@ -22,6 +22,7 @@ from .label import Label as _Label
 from .mapevaltree import MapEvalTree as _MapEvalTree
 from .forwardsim import ForwardSimulator
 from . import replib
+from .replib import slowreplib as _slowreplib
 
 
 _dummy_profiler = _DummyProfiler()
@@ -284,6 +285,11 @@ class MapForwardSimulator(ForwardSimulator):
             if returnPr: return hp, p
             else: return hp
 
+    def _mapfill_lib(self):
+        """ The module whose `DM_mapfill_*` functions work with the state representations being used """
+        # (the optimized functions are only for density matrices)
+        return replib if self.evotype == "densitymx" else _slowreplib
+
     def default_distribute_method(self):
         """
         Return the preferred MPI distribution mode for this calculator.
@@ -438,7 +444,7 @@ class MapForwardSimulator(ForwardSimulator):
         nP2 = _slct.length(param_indices2) if isinstance(param_indices2, slice) else len(param_indices2)
         dprobs = _np.empty((nEls, nP2), 'd')
         dprobs2 = _np.empty((nEls, nP2), 'd')
-        replib.DM_mapfill_dprobs_block(calc, dprobs, slice(0, nEls), None, evalTree, param_indices2, comm)
+        calc._mapfill_lib().DM_mapfill_dprobs_block(calc, dprobs, slice(0, nEls), None, evalTree, param_indices2, comm)
 
         orig_vec = calc.to_vector().copy()
         for i in range(calc.Np):
@@ -446,7 +452,7 @@ class MapForwardSimulator(ForwardSimulator):
                 iFinal = iParamToFinal[i]
                 vec = orig_vec.copy(); vec[i] += eps
                 calc.from_vector(vec, close=True)
-                replib.DM_mapfill_dprobs_block(calc, dprobs2, slice(0, nEls), None, evalTree, param_indices2, subComm)
+                calc._mapfill_lib().DM_mapfill_dprobs_block(calc, dprobs2, slice(0, nEls), None, evalTree, param_indices2, subComm)
                 _fas(mxToFill, [dest_indices, iFinal, dest_param_indices2], (dprobs2 - dprobs) / eps)
         calc.from_vector(orig_vec)
 
@@ -511,7 +517,7 @@ class MapForwardSimulator(ForwardSimulator):
 
             # mxToFill is an array corresponding to the evalSubTree's parent's elements,
             # not evalSubTree's so pass felInds to _fill_probs_block
-            replib.DM_mapfill_probs_block(self, mxToFill, felInds, evalSubTree, mySubComm)
+            self._mapfill_lib().DM_mapfill_probs_block(self, mxToFill, felInds, evalSubTree, mySubComm)
 
         #collect/gather results
         subtreeElementIndices = [t.final_element_indices(evalTree) for t in subtrees]
@@ -612,14 +618,14 @@ class MapForwardSimulator(ForwardSimulator):
             felInds = evalSubTree.final_element_indices(evalTree)
 
             if prMxToFill is not None:
-                replib.DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
+                self._mapfill_lib().DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
 
             #Set wrtBlockSize to use available processors if it isn't specified
             blkSize = self._setParamBlockSize(wrtFilter, wrtBlockSize, mySubComm)
 
             if blkSize is None:  # wrtFilter gives entire computed parameter block
                 #Compute all requested derivative columns at once
-                replib.DM_mapfill_dprobs_block(self, mxToFill, felInds, None, evalSubTree, wrtSlice, mySubComm)
+                self._mapfill_lib().DM_mapfill_dprobs_block(self, mxToFill, felInds, None, evalSubTree, wrtSlice, mySubComm)
                 profiler.mem_check("bulk_fill_dprobs: post fill")
 
             else:  # Divide columns into blocks of at most blkSize
@@ -638,7 +644,7 @@ class MapForwardSimulator(ForwardSimulator):
 
                 for iBlk in myBlkIndices:
                     paramSlice = blocks[iBlk]  # specifies which deriv cols calc_and_fill computes
-                    replib.DM_mapfill_dprobs_block(self, mxToFill, felInds, paramSlice,
+                    self._mapfill_lib().DM_mapfill_dprobs_block(self, mxToFill, felInds, paramSlice,
                                                    evalSubTree, paramSlice, blkComm)
                     profiler.mem_check("bulk_fill_dprobs: post fill blk")
 
@@ -771,7 +777,7 @@ class MapForwardSimulator(ForwardSimulator):
             felInds = evalSubTree.final_element_indices(evalTree)
 
             if prMxToFill is not None:
-                replib.DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
+                self._mapfill_lib().DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
 
             #Set wrtBlockSize to use available processors if it isn't specified
             blkSize1 = self._setParamBlockSize(wrtFilter1, wrtBlockSize1, mySubComm)
@@ -780,13 +786,13 @@ class MapForwardSimulator(ForwardSimulator):
             if blkSize1 is None and blkSize2 is None:  # wrtFilter1 & wrtFilter2 dictate block
                 #Compute all requested derivative columns at once
                 if deriv1MxToFill is not None:
-                    replib.DM_mapfill_dprobs_block(self, deriv1MxToFill, felInds, None,
+                    self._mapfill_lib().DM_mapfill_dprobs_block(self, deriv1MxToFill, felInds, None,
                                                    evalSubTree, wrtSlice1, mySubComm)
                 if deriv2MxToFill is not None:
                     if deriv1MxToFill is not None and wrtSlice1 == wrtSlice2:
                         deriv2MxToFill[felInds, :] = deriv1MxToFill[felInds, :]
                     else:
-                        replib.DM_mapfill_dprobs_block(self, deriv2MxToFill, felInds,
+                        self._mapfill_lib().DM_mapfill_dprobs_block(self, deriv2MxToFill, felInds,
                                                        None, evalSubTree, wrtSlice2, mySubComm)
 
                 self.DM_mapfill_hprobs_block(mxToFill, felInds, None, None, evalSubTree,
@@ -819,7 +825,7 @@ class MapForwardSimulator(ForwardSimulator):
                 for iBlk1 in myBlk1Indices:
                     paramSlice1 = blocks1[iBlk1]
                     if derivMxToFill is not None:
-                        replib.DM_mapfill_dprobs_block(self, derivMxToFill, felInds, paramSlice1, evalSubTree,
+                        self._mapfill_lib().DM_mapfill_dprobs_block(self, derivMxToFill, felInds, paramSlice1, evalSubTree,
                                                        paramSlice1, blk1Comm)
 
                     for iBlk2 in myBlk2Indices:
-- 
2.43.0


From 1270314a970c8e27b0d54a8d932f9e734a4e03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 050/109] fix: evaluation trees containing instruments can be
 split

---
 pygsti/objects/evaltree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/evaltree.py b/pygsti/objects/evaltree.py
index 3be65a7..5d0ee7b 100644
--- a/pygsti/objects/evaltree.py
+++ b/pygsti/objects/evaltree.py
@@ -683,7 +683,8 @@ class EvalTree(list):
         for ky, indices in element_indices.items():
             updated_elIndices[ky] = _slct.list_to_slice(
                 [permute_oldToNew[x] for x in
-                 (_slct.indices(indices) if isinstance(indices, slice) else indices)])
+                 (_slct.indices(indices) if isinstance(indices, slice) else indices)],
+                array_ok=True)  # a circuit with instruments may have elements in several places
 
         # Now update simplified_circuit_Xs
         updated_simplified_circuit_Xs = [simplified_circuit_Xs[iCur]
-- 
2.43.0


From e5fdcac4a8af6dce5c42b401d83f502ebfd3de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 051/109] fix: circuits that differ only in their preparation
 can be evaluated in one list

---
 pygsti/objects/matrixevaltree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/matrixevaltree.py b/pygsti/objects/matrixevaltree.py
index 40a6d1f..7f70f0d 100644
--- a/pygsti/objects/matrixevaltree.py
+++ b/pygsti/objects/matrixevaltree.py
@@ -79,14 +79,15 @@ class MatrixEvalTree(EvalTree):
         # since it's trivial to compute probabilities for different state preps when you have the
         # process matrix.  The values of the simplified_circuit_list then become lists of *spamtuples*
         # rather than just lists of effect labels.
-        simplified_circuit_list = _collections.OrderedDict()
+        # NOTE: this is a list of pairs since circuits may only differ by their preparation.
+        simplified_circuit_list = []
         for simple_circuit_with_prep, elabels in simplified_circuit_elabels.items():
             if elabels == [None]:  # special case when there is no prep
-                simplified_circuit_list[simple_circuit_with_prep] = elabels
+                simplified_circuit_list.append((simple_circuit_with_prep, elabels))
             else:
                 rhoLbl = simple_circuit_with_prep[0]  # assume first circuit layer is a prep
                 simple_circuit_no_prep = simple_circuit_with_prep[1:]
-                simplified_circuit_list[simple_circuit_no_prep] = [(rhoLbl, eLbl) for eLbl in elabels]
+                simplified_circuit_list.append((simple_circuit_no_prep, [(rhoLbl, eLbl) for eLbl in elabels]))
 
         # opLabels : A list of all the length-0 & 1 operation labels to be stored
         #  at the beginning of the tree.  This list must include all the gate
@@ -96,8 +97,8 @@ class MatrixEvalTree(EvalTree):
         if numSubTreeComms is not None:
             self.distribution['numSubtreeComms'] = numSubTreeComms
 
-        circuit_list = [tuple(mdl) for mdl in simplified_circuit_list.keys()]
-        self.simplified_circuit_spamTuples = list(simplified_circuit_list.values())
+        circuit_list = [tuple(mdl) for mdl, _ in simplified_circuit_list]
+        self.simplified_circuit_spamTuples = [spamtups for _, spamtups in simplified_circuit_list]
         self.simplified_circuit_nEls = list(map(len, self.simplified_circuit_spamTuples))
         self.num_final_els = sum([len(v) for v in self.simplified_circuit_spamTuples])
         #self._compute_finalStringToEls() #depends on simplified_circuit_spamTuples
-- 
2.43.0


From 0020c2b97def8d04010c11e29e8a9690ff0e44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 052/109] fix: qubit graphs with directions: distances count
 edges, subgraphs keep directions, items can be set and removed; graphs
 without edges

---
 pygsti/objects/qubitgraph.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 6e5a316..dcdc5fc 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -141,6 +141,7 @@ class QubitGraph(object):
         """
         self.nqubits = len(qubit_labels)
         self.directed = directed
+        self.directions = list(direction_names) if direction_names is not None else None
 
         #Determine whether we'll be using directions or not: set self.directions
         if initial_connectivity is not None:
@@ -202,7 +203,7 @@ class QubitGraph(object):
             assert(initial_edges is None), "Cannot specify `initial_connectivity` and `initial_edges`!"
             assert(initial_connectivity.shape == self._connectivity.shape), \
                 "`initial_connectivity must have shape %s" % str(self._connectivity.shape)
-            self._connectivity[:, :] = initial_connectivity
+            self._connectivity[:, :] = initial_connectivity if directed else _np.triu(initial_connectivity)
 
         if initial_edges is not None:
             assert(initial_connectivity is None), "Cannot specify `initial_connectivity` and `initial_edges`!"
@@ -228,7 +229,7 @@ class QubitGraph(object):
         if self._dirty:
             self._distance_matrix, self._predecessors = _fw(
                 self._connectivity, return_predecessors=True,
-                directed=self.directed, unweighted=False)  # TIM - why use unweighted=False?
+                directed=self.directed, unweighted=True)  # each edge counts 1 (elements may be direction indices)
 
     def __getitem__(self, key):
         node1, node2 = key
@@ -241,9 +242,11 @@ class QubitGraph(object):
             self._connectivity[j, i] = bool(val)
         elif self.directions is None:
             self._connectivity[i, j] = bool(val)
+        elif val is None or val is False:  # no edge
+            self._connectivity[i, j] = 0
         else:  # directions are being used, so connectivity matrix contains ints
             dir_index = val if isinstance(val, int) else self.directions.index(val)
-            self._connectivity[i, j] = dir_index
+            self._connectivity[i, j] = dir_index + 1  # b/c 0 means "no edge"
         self._dirty = True
 
     def get_node_names(self):
@@ -653,12 +656,14 @@ class QubitGraph(object):
         edges = []
         for edge in self.edges():
             if edge[0] in nodes_to_keep and edge[1] in nodes_to_keep:
-                if reset_nodes:
-                    edges.append((labelmap[edge[0]], labelmap[edge[1]]))
-                else:
-                    edges.append(edge)
-
-        return QubitGraph(qubit_labels, initial_edges=edges, directed=self.directed)
+                new_edge = (labelmap[edge[0]], labelmap[edge[1]]) if reset_nodes else edge
+                if self.directions is not None:  # keep the edge's direction
+                    i, j = self._nodeinds[edge[0]], self._nodeinds[edge[1]]
+                    new_edge = new_edge + (self.directions[self._connectivity[i, j] - 1],)
+                edges.append(new_edge)
+
+        return QubitGraph(qubit_labels, initial_edges=edges, directed=self.directed,
+                          direction_names=self.directions)
 
     def resolve_relative_nodelabel(self, relative_nodelabel, target_labels):
         """
-- 
2.43.0


From 81f90fce043d48e21004080dc083a9cf08216fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 053/109] fix: the Python path-integral kernels add polynomials
 in place

---
 pygsti/objects/replib/slowreplib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index f2b2f0a..50a67f7 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -2089,7 +2089,7 @@ def _prs_as_polys(calc, rholabel, elabels, circuit, comm=None, memLimit=None, fa
                     final_factor_indx = fi[-1]
                     Ei = Einds[final_factor_indx]  # final "factor" index == E-vector index
                     if prps[Ei] is None: prps[Ei] = res
-                    else: prps[Ei] += res  # could add_inplace?
+                    else: prps[Ei].add_inplace(res)
                     #print("DB PYTHON: prps[%d] = " % Ei, prps[Ei])
 
             else:  # non-fast mode
@@ -2106,7 +2106,7 @@ def _prs_as_polys(calc, rholabel, elabels, circuit, comm=None, memLimit=None, fa
                     # print("DB: pr_as_poly    ", fi, " coeffs=", [f.coeff for f in factors],
                     #       " pLeft=", pLeft, " pRight=", pRight, "res=", res)
                     if prps[Ei] is None: prps[Ei] = res
-                    else: prps[Ei] += res  # add_inplace?
+                    else: prps[Ei].add_inplace(res)
                     #print("DB pr_as_poly   running prps[",Ei,"] =",prps[Ei])
 
             # #DEBUG!!!
-- 
2.43.0


From c6e664c753da18f79fb6a4ccaba61865e0c32a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 054/109] fix: resolve data of circuits given with explicit
 preparation or measurement

---
 pygsti/objects/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/model.py b/pygsti/objects/model.py
index 878e657..1fb0f09 100644
--- a/pygsti/objects/model.py
+++ b/pygsti/objects/model.py
@@ -946,6 +946,7 @@ class OpModel(Model):
         def resolve_elabels(circuit):
             """ Determines spam tuples that correspond to circuit
                 and strips any spam-related pieces off """
+            orig_circuit = circuit
             prep_lbl, circuit, povm_lbl = \
                 self.split_circuit(circuit)
             if prep_lbl is None or povm_lbl is None:
@@ -964,7 +965,7 @@ class OpModel(Model):
                     # a final element in the "full" (tuple) outcome labels that
                     # were observed.
                     observed_povm_outcomes = sorted(set(
-                        [full_out_tup[-1] for full_out_tup in dataset[circuit].outcomes]))
+                        [full_out_tup[-1] for full_out_tup in dataset[orig_circuit].outcomes]))
                     elabels = [povm_lbl + "_" + elbl
                                for elbl in observed_povm_outcomes]
                     # elbl = oout[-1] -- the last element corresponds
-- 
2.43.0


From da1e7ad9bdf813407c0bbbe2be7bae0f5f4f7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 055/109] fix: map-simulator derivatives are differences of
 unclipped probabilities

---
 pygsti/objects/mapforwardsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/mapforwardsim.py b/pygsti/objects/mapforwardsim.py
index 6ae16d9..e995efc 100644
--- a/pygsti/objects/mapforwardsim.py
+++ b/pygsti/objects/mapforwardsim.py
@@ -204,14 +204,14 @@ class MapForwardSimulator(ForwardSimulator):
 
         #Finite difference derivative
         eps = 1e-7  # hardcoded?
-        p = self.prs(spamTuple[0], [spamTuple[1]], circuit, clipTo)[0]
+        p = self.prs(spamTuple[0], [spamTuple[1]], circuit, None)[0]  # (only the returned value is clipped)
         dp = _np.empty((1, self.Np), 'd')
 
         orig_vec = self.to_vector().copy()
         for i in range(self.Np):
             vec = orig_vec.copy(); vec[i] += eps
             self.from_vector(vec, close=True)
-            dp[0, i] = (self.prs(spamTuple[0], [spamTuple[1]], circuit, clipTo) - p)[0] / eps
+            dp[0, i] = (self.prs(spamTuple[0], [spamTuple[1]], circuit, None) - p)[0] / eps
         self.from_vector(orig_vec, close=True)
 
         if returnPr:
-- 
2.43.0


From afde16a4ab86e97e69a5426c623bc1c2e9e46d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 056/109] fix: marginalizing a POVM no longer changes the
 POVM's first effect

---
 pygsti/objects/povm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 7d976c0..eda86be 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1302,7 +1302,7 @@ class MarginalizedPOVM(POVM):
             for k in self._elements_to_sum[key]:
                 e = self.povm_to_marginalize[k]
                 if effect_vec is None:
-                    effect_vec = e.todense()
+                    effect_vec = _np.array(e.todense())  # a copy, as todense() may give the effect's own vector
                 else:
                     effect_vec += e.todense()
             effect = _sv.StaticSPAMVec(effect_vec, self._evotype, 'effect')
-- 
2.43.0


From 48a57fc7316f69e88e64ae655385ef66ead5f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 057/109] fix: derivatives of tensor-product effects use the
 parameters of their factors

---
 pygsti/objects/spamvec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 36fc915..a3a5f0f 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2124,7 +2124,8 @@ class TensorProdSPAMVec(SPAMVec):
 
         #Product rule to compute jacobian
         for i, fct in enumerate(self.factors):  # loop over the spamvec/povm we differentiate wrt
-            vec = fct if (self._prep_or_effect == "prep") else fct[self.effectLbls[i]]
+            # (a simplified effect's gpindices locate its parameters among those of its POVM)
+            vec = fct if (self._prep_or_effect == "prep") else fct.simplify_effects()[self.effectLbls[i]]
 
             if vec.num_params() == 0: continue  # no contribution
             deriv = vec.deriv_wrt_params(None)  # TODO: use filter?? / make relative to this gate...
@@ -2156,7 +2157,7 @@ class TensorProdSPAMVec(SPAMVec):
                 local_inds = fct.gpindices  # factor vectors hold local indices
             else:  # in effect case, POVM-factors hold global indices (b/c they're meant to be shareable)
                 local_inds = _modelmember._decompose_gpindices(
-                    self.gpindices, fct.gpindices)
+                    self.gpindices, vec.gpindices)
 
             assert(local_inds is not None), \
                 "Error: gpindices has not been initialized for factor %d - cannot compute derivative!" % i
-- 
2.43.0


From 61df954de559d71ed6b00308ee50cd3012f28f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 058/109] fix: Hessian of composed error generators fills the
 block of each factor

---
 pygsti/objects/operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 9793082..b7810f7 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5857,7 +5857,8 @@ class ComposedErrorgen(LinearOperator):
             factor_hessian = eg.hessian_wrt_params(None, None)  # do filtering at end
             rel_gpindices = _modelmember._decompose_gpindices(
                 self.gpindices, eg.gpindices)
-            hessianMx[:, rel_gpindices, rel_gpindices] += factor_hessian[:, :, :]
+            if isinstance(rel_gpindices, slice): rel_gpindices = _slct.indices(rel_gpindices)
+            hessianMx[_np.ix_(_np.arange(d2**2), rel_gpindices, rel_gpindices)] += factor_hessian[:, :, :]
 
         if wrtFilter1 is None:
             if wrtFilter2 is None:
-- 
2.43.0


From d91db1be5e736516e00102e6c57b615f09b1fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 059/109] fix: summing a composed error generator no longer
 changes its first factor

---
 pygsti/objects/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index b7810f7..f275b3f 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5945,7 +5945,7 @@ class ComposedErrorgen(LinearOperator):
         """ Return this error generator as a sparse matrix """
         if len(self.factors) == 0:
             return _sps.csr_matrix((self.dim, self.dim), dtype='d')
-        mx = self.factors[0].tosparse()
+        mx = self.factors[0].tosparse().copy()  # (may be the factor's own matrix)
         for eg in self.factors[1:]:
             mx += eg.tosparse()
         return mx
@@ -5954,7 +5954,7 @@ class ComposedErrorgen(LinearOperator):
         """ Return this error generator as a dense matrix """
         if len(self.factors) == 0:
             return _np.zeros((self.dim, self.dim), 'd')
-        mx = self.factors[0].todense()
+        mx = self.factors[0].todense().copy()  # (may be the factor's own matrix)
         for eg in self.factors[1:]:
             mx += eg.todense()
         return mx
-- 
2.43.0


From 15ee1e11aedbcf6f332ccada8c87ab220104f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 060/109] fix: derivatives of relative-depolarization and
 diagonal-affine Lindblad parameters

---
 pygsti/objects/operation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index f275b3f..6acea63 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -7727,7 +7727,7 @@ class LindbladErrorgen(LinearOperator):
             elif self.param_mode == "reldepol":  # all coeffs same & == param
                 assert(len(otherParams) == 1), "Should only have 1 non-ham parameter in 'reldepol' case!"
                 #dOdp  = _np.einsum('alj->lj', self.otherGens)[:,:,None]
-                dOdp = _np.sum(_np.transpose(self.otherGens, (1, 2, 0)), axis=2)[:, :, None] * 2 * otherParams[0]
+                dOdp = _np.sum(_np.transpose(self.otherGens, (1, 2, 0)), axis=2)[:, :, None]
             elif self.param_mode == "cptp":  # (coeffs = params^2)
                 #dOdp  = _np.einsum('alj,a->lja', self.otherGens, 2*otherParams)
                 dOdp = _np.transpose(self.otherGens, (1, 2, 0)) * 2 * otherParams  # just a broadcast
@@ -7825,7 +7825,7 @@ class LindbladErrorgen(LinearOperator):
                 #d2Odp2  = _np.einsum('alj,aq->ljaq', self.otherGens, 2*_np.identity(nP,'d'))
                 d2Odp2 = _np.transpose(self.otherGens, (1, 2, 0))[:, :, :, None] * 2 * _np.identity(nP, 'd')
             else:  # param_mode == "unconstrained" or "reldepol"
-                assert(nP == bsO - 1)
+                assert(nP == (1 if self.param_mode == "reldepol" else bsO - 1))
                 d2Odp2 = _np.zeros([d2, d2, nP, nP], 'd')
 
         elif self.nonham_mode == "diag_affine":
@@ -7835,19 +7835,19 @@ class LindbladErrorgen(LinearOperator):
             # Derivative of exponent wrt other param; shape == [d2,d2,nP,nP]
             if self.param_mode == "depol":
                 assert(nP == bsO)  # 1 diag param + (bsO-1) affine params
-                d2Odp2 = _np.empty((d2, d2, nP, nP), 'complex')
+                d2Odp2 = _np.zeros((d2, d2, nP, nP), 'complex')
                 #d2Odp2[:,:,0,0]  = _np.einsum('alj->lj', self.otherGens[0]) * 2 # single diagonal term
                 d2Odp2[:, :, 0, 0] = _np.sum(self.otherGens[0], axis=0) * 2  # single diagonal term
                 d2Odp2[:, :, 1:, 1:] = 0  # 2nd deriv wrt. all affine params == 0
             elif self.param_mode == "cptp":
                 assert(nP == 2 * (bsO - 1)); hnP = bsO - 1  # half nP
-                d2Odp2 = _np.empty((d2, d2, nP, nP), 'complex')
+                d2Odp2 = _np.zeros((d2, d2, nP, nP), 'complex')
                 #d2Odp2[:,:,0:hnP,0:hnP] = _np.einsum('alj,aq->ljaq', self.otherGens[0], 2*_np.identity(nP,'d'))
                 d2Odp2[:, :, 0:hnP, 0:hnP] = _np.transpose(self.otherGens[0], (1, 2, 0))[
-                    :, :, :, None] * 2 * _np.identity(nP, 'd')
+                    :, :, :, None] * 2 * _np.identity(hnP, 'd')
                 d2Odp2[:, :, hnP:, hnP:] = 0  # 2nd deriv wrt. all affine params == 0
             else:  # param_mode == "unconstrained" or "reldepol"
-                assert(nP == 2 * (bsO - 1))
+                assert(nP == (bsO if self.param_mode == "reldepol" else 2 * (bsO - 1)))
                 d2Odp2 = _np.zeros([d2, d2, nP, nP], 'd')
 
         else:  # nonham_mode == "all" : all lindblad terms included
-- 
2.43.0


From 1f4956b7460f99433751872a87fb481b18d85c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 061/109] fix: stabilizer states of given Z values put each
 value on its own qubit; keep inputs; products of frames

---
 pygsti/objects/stabilizer.py | 5 ++++-
 pygsti/tools/symplectic.py   | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/stabilizer.py b/pygsti/objects/stabilizer.py
index d679eb4..f395e5f 100644
--- a/pygsti/objects/stabilizer.py
+++ b/pygsti/objects/stabilizer.py
@@ -79,7 +79,8 @@ class StabilizerFrame(object):
         p = _np.zeros(2 * nqubits, int)
         if zvals is not None:
             for i, z in enumerate(zvals):
-                p[i] = p[i + nqubits] = 2 if bool(z) else 0
+                # (the flip above puts qubit i's stabilizer in column nqubits-1-i)
+                p[nqubits - 1 - i] = p[2 * nqubits - 1 - i] = 2 if bool(z) else 0
                 # TODO: check this is right -- (how/need to update the destabilizers?)
         return cls(s, [p], [1.0])
 
@@ -824,11 +825,13 @@ def sframe_kronecker(sframe_factors):
     inds = [range(len(sf.ps)) for sf in sframe_factors]
     for ii in _itertools.product(*inds):
         pout = _np.zeros(2 * n, int); amp = 1.0
+        k = 0  # current qubit index
         for i, sf in zip(ii, sframe_factors):
             nq = sf.nqubits
             pout[k:k + nq] = sf.ps[i][0:nq]
             pout[n + k:n + k + nq] = sf.ps[i][nq:2 * nq]
             amp *= sf.a[i]
+            k += nq
         ps_out.append(pout)
         amps_out.append(amp)
 
diff --git a/pygsti/tools/symplectic.py b/pygsti/tools/symplectic.py
index 21b4933..a62fd0b 100644
--- a/pygsti/tools/symplectic.py
+++ b/pygsti/tools/symplectic.py
@@ -545,7 +545,8 @@ def prep_stabilizer_state(nqubits, zvals=None):
     p = _np.zeros(2 * n, int)
     if zvals:
         for i, z in enumerate(zvals):
-            p[i] = p[i + n] = 2 if bool(z) else 0  # EGN TODO: check this is right -- (how to update the destabilizers?)
+            # (the flip above puts qubit i's stabilizer in column n-1-i)
+            p[n - 1 - i] = p[2 * n - 1 - i] = 2 if bool(z) else 0  # EGN TODO: (how to update the destabilizers?)
     return s, p
 
 
@@ -1545,7 +1546,7 @@ def bitstring_for_pauli(p):
     the phase-vector p creates when acting on the standard input state.
     """
     n = len(p) // 2
-    bitstring = p[n:]
+    bitstring = p[n:].copy()
     bitstring[bitstring > 0] = 1
     return list(bitstring)
 
-- 
2.43.0


From b1c96e2750611ecdf3f8b7433af7755afaf0484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 062/109] fix: GF(2) product of a single matrix

---
 pygsti/tools/matrixmod2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/tools/matrixmod2.py b/pygsti/tools/matrixmod2.py
index 67ac68a..0bdf784 100644
--- a/pygsti/tools/matrixmod2.py
+++ b/pygsti/tools/matrixmod2.py
@@ -26,6 +26,7 @@ def multidotmod2(mlist):
     Returns the product over the itegers modulo 2 of
     a list of matrices.
     """
+    if len(mlist) == 1: return mlist[0] % 2  # (multi_dot needs at least two arrays)
     return _np.linalg.multi_dot(mlist) % 2
 
 
-- 
2.43.0


From 8bde745e8d9d0b959c97dda064e39ac17658d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 063/109] fix: exponentiated stabilizer operations use the
 stabilizer kernel

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 6acea63..8ea623e 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4636,7 +4636,7 @@ class ExponentiatedOp(LinearOperator):
             rep = replib.SVOpRep_Exponentiated(self.exponentiated_op._rep, self.power, dim)
         elif evotype == "stabilizer":
             nQubits = int(round(_np.log2(dim)))  # "stabilizer" is a unitary-evolution type mode
-            rep = replib.SVOpRep_Exponentiated(self.exponentiated_op._rep, self.power, nQubits)
+            rep = replib.SBOpRep_Exponentiated(self.exponentiated_op._rep, self.power, nQubits)
         else:
             raise ValueError("Invalid evotype: %s for ExponentiatedOp object" % evotype)
 
-- 
2.43.0


From 8bc07231523248fbfd52e05c16d434a1d7232805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 064/109] fix: sparse direct-sum bases lost imaginary parts;
 embedded bases were unhashable

---
 pygsti/objects/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 5889191..21ce860 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -859,7 +859,7 @@ class DirectSumBasis(LazyBasis):
             for lbl, vel in zip(compbasis.labels, compbasis.vector_elements):
                 assert(_sps.issparse(vel) == self.sparse), "Inconsistent sparsity!"
                 if self.sparse:
-                    mx = _sps.lil_matrix((self.dim, 1))
+                    mx = _sps.lil_matrix((self.dim, 1), dtype='complex')
                     mx[start:start + compbasis.dim, 0] = vel
                     compMxs.append(mx)
                 else:
@@ -1266,7 +1266,7 @@ class EmbeddedBasis(LazyBasis):
         super(EmbeddedBasis, self).__init__(name, longname, dim, size, elshape, real, sparse)
 
     def __hash__(self):
-        return hash(tuple(hash(self.embedded_basis), self.target_labels, self.state_space_labels.labels))
+        return hash((hash(self.embedded_basis), tuple(self.target_labels), tuple(self.state_space_labels.labels)))
 
     def _lazy_build_elements(self):
         """ Take a dense or sparse basis matrix and embed it. """
-- 
2.43.0


From bb8532d0706ba6575719664a87260073e09501e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 065/109] fix: flexible_change_basis ignored the start basis;
 stdmx_to_vec wrong for non-Hermitian basis elements

---
 pygsti/tools/basistools.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygsti/tools/basistools.py b/pygsti/tools/basistools.py
index 01a6f04..5c35f81 100644
--- a/pygsti/tools/basistools.py
+++ b/pygsti/tools/basistools.py
@@ -369,8 +369,8 @@ def flexible_change_basis(mx, startBasis, endBasis):
         resize = 'contract'
     stdBasis1 = startBasis.equivalent('std')
     stdBasis2 = endBasis.equivalent('std')
-    #start = change_basis(mx, startBasis, stdBasis1)
-    mid = resize_std_mx(mx, resize, stdBasis1, stdBasis2)
+    start = change_basis(mx, startBasis, stdBasis1)
+    mid = resize_std_mx(start, resize, stdBasis1, stdBasis2)
     end = change_basis(mid, stdBasis2, endBasis)
     return end
 
@@ -506,13 +506,13 @@ def stdmx_to_vec(m, basis):
 
     assert(len(m.shape) == 2 and m.shape[0] == m.shape[1])
     basis = Basis.cast(basis, m.shape[0]**2)
-    v = _np.empty((basis.size, 1))
+    v = _np.empty((basis.size, 1), 'd' if basis.real else 'complex')
     for i, mx in enumerate(basis.elements):
         if basis.real:
             v[i, 0] = _np.real(_mt.trace(_np.dot(mx, m)))
-        else:
-            v[i, 0] = _np.real_if_close(_mt.trace(_np.dot(mx, m)))
-    return v
+        else:  # elements needn't be Hermitian
+            v[i, 0] = _mt.trace(_np.dot(_np.conjugate(mx).T, m))
+    return v if basis.real else _np.real_if_close(v)
 
 
 stdmx_to_ppvec = partial(stdmx_to_vec, basis='pp')
-- 
2.43.0


From 3e3300c777495b8c5a479770e7300d58ea39e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 066/109] fix: fast_jamiolkowski_iso_std_inv rejects
 multi-block bases

---
 pygsti/tools/jamiolkowski.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/jamiolkowski.py b/pygsti/tools/jamiolkowski.py
index 0a640ea..386f675 100644
--- a/pygsti/tools/jamiolkowski.py
+++ b/pygsti/tools/jamiolkowski.py
@@ -259,7 +259,8 @@ def fast_jamiolkowski_iso_std_inv(choiMx, opMxBasis):
     opMxInStdBasis = choiMx.reshape((N, N, N, N)) * N
     opMxInStdBasis = _np.swapaxes(opMxInStdBasis, 1, 2).flatten()
     opMxInStdBasis = opMxInStdBasis.reshape((N2, N2))
-    opMxBasis = _bt.build_basis_for_matrix(opMxInStdBasis, opMxBasis)
+    if not isinstance(opMxBasis, _Basis):
+        opMxBasis = _Basis.cast(opMxBasis, N2)  # `opMxBasis` may have a smaller dimension (multiple blocks)
 
     #project operation matrix so it acts only on the space given by the desired state space blocks
     opMxInStdBasis = _bt.resize_std_mx(opMxInStdBasis, 'contract',
-- 
2.43.0


From 0e9e603af379fdcec87905a32a7e2049f8ea2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 067/109] fix: polynomial terms given out of order, identical
 after re-indexing, or spanning several packed integers; powers and empty
 degree

---
 pygsti/objects/polynomial.py       | 33 +++++++++++++++++++++---------
 pygsti/objects/replib/fastreps.cpp |  4 ++--
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index 1d9b428..dc29714 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -32,6 +32,15 @@ def _vinds_to_int(vinds, vindices_per_int, max_num_vars):
     return tuple(ret_tup)
 
 
+def _collect_terms(items):
+    """Sorts the variable indices of, and combines identical, (variable-index-tuple, coefficient) terms"""
+    ret = {}
+    for vinds, coeff in items:
+        k = tuple(sorted(vinds))
+        ret[k] = ret[k] + coeff if (k in ret) else coeff
+    return ret
+
+
 class FASTPolynomial(object):
     """
     Encapsulates a polynomial as a subclass of the standard Python dict.
@@ -56,7 +65,7 @@ class FASTPolynomial(object):
         # (max_num_vars+1) ** vindices_per_int <= 2**PLATFORM_BITS, so:
         # vindices_per_int * log2(max_num_vars+1) <= PLATFORM_BITS
         # vindices_per_int = int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
-        return int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        return int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))  # -1 b/c of sign bit
 
     @classmethod
     def fromrep(cls, rep):
@@ -115,6 +124,7 @@ class FASTPolynomial(object):
         """
         vindices_per_int = FASTPolynomial.get_vindices_per_int(max_num_vars)
 
+        coeffs = _collect_terms(coeffs.items()) if (coeffs is not None) else {}
         int_coeffs = {_vinds_to_int(k, vindices_per_int, max_num_vars): v for k, v in coeffs.items()}
         self._rep = replib.PolyRep(int_coeffs, max_num_vars, vindices_per_int)
 
@@ -175,7 +185,7 @@ class FASTPolynomial(object):
         Return the largest sum-of-exponents for any term (monomial) within this
         polynomial. E.g. for x_2^3 + x_1^2*x_0^2 has degree 4.
         """
-        return 0 if len(self) == 0 else max([len(k) for k in self.coeffs.keys()])
+        return max([len(k) for k in self.coeffs.keys()], default=0)
 
     def evaluate(self, variable_values):
         """
@@ -248,7 +258,7 @@ class FASTPolynomial(object):
         -------
         Polynomial
         """
-        return FASTPolynomial({mapfn(k): v for k, v in self.coeffs.items()}, self.max_num_vars)
+        return FASTPolynomial(_collect_terms([(mapfn(k), v) for k, v in self.coeffs.items()]), self.max_num_vars)
 
     def map_indices_inplace(self, mapfn):
         """
@@ -269,7 +279,7 @@ class FASTPolynomial(object):
         -------
         None
         """
-        new_coeffs = {mapfn(k): v for k, v in self.coeffs.items()}
+        new_coeffs = _collect_terms([(mapfn(k), v) for k, v in self.coeffs.items()])
         new_int_coeffs = {_vinds_to_int(k, self._rep.vindices_per_int, self._rep.max_num_vars): v
                           for k, v in new_coeffs.items()}
         self._rep.reinit(new_int_coeffs)
@@ -279,14 +289,17 @@ class FASTPolynomial(object):
         *individual* variable indices old->new instead of tuples of them
         """
         ret = self.copy()
-        ret._rep.mapvec_indices_inplace(mapvec)
+        ret.mapvec_indices_inplace(mapvec)
         return ret
 
     def mapvec_indices_inplace(self, mapvec):
         """TODO: docstring - map indices using a vector instead of a function (vector maps
         *individual* variable indices old->new instead of tuples of them
         """
-        self._rep.mapvec_indices_inplace(mapvec)
+        if _np.all(_np.diff(mapvec) > 0):
+            self._rep.mapvec_indices_inplace(mapvec)
+        else:  # terms' indices may need sorting and different terms may become the same
+            self.map_indices_inplace(lambda vinds: tuple([int(mapvec[i]) for i in vinds]))
 
     def mult(self, x):
         """
@@ -410,11 +423,11 @@ class FASTPolynomial(object):
     def __pow__(self, n):
         ret = FASTPolynomial({(): 1.0}, self.max_num_vars)  # max_order updated by mults below
         cur = self
-        for i in range(int(_np.floor(_np.log2(n))) + 1):
+        while n > 0:
             rem = n % 2  # gets least significant bit (i-th) of n
             if rem == 1: ret *= cur  # add current power of x (2^i) if needed
-            cur = cur * cur  # current power *= 2
             n //= 2  # shift bits of n right
+            if n > 0: cur = cur * cur  # current power *= 2
         return ret
 
     def __copy__(self):
@@ -460,7 +473,7 @@ class SLOWPolynomial(dict):  # REMOVE THIS CLASS (just for reference)
         This quantity is needed to directly construct Polynomial representations
         and is thus useful internally for forward simulators.
         """
-        return int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        return int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))  # -1 b/c of sign bit
 
     @classmethod
     def fromrep(cls, rep):
@@ -949,7 +962,7 @@ class SLOWPolynomial(dict):  # REMOVE THIS CLASS (just for reference)
 
         # (max_num_vars+1) ** vindices_per_int <= 2**PLATFORM_BITS, so:
         # vindices_per_int * log2(max_num_vars+1) <= PLATFORM_BITS
-        vindices_per_int = int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        vindices_per_int = int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))
         self.check_fastpoly()
 
         return replib.PolyRep(int_coeffs, max_num_vars, vindices_per_int)
diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index d77b213..f294edb 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -2782,8 +2782,8 @@ namespace CReps {
   std::vector<INT> PolyCRep::int_to_vinds(PolyVarsIndex indx_tup) {
     std::vector<INT> ret;
     INT nxt, i, indx;
-    for(std::size_t i=0; i < indx_tup._parts.size(); i++) {
-      indx = indx_tup._parts[i];
+    for(std::size_t k=0; k < indx_tup._parts.size(); k++) {
+      indx = indx_tup._parts[k];
       while(indx != 0) {
         nxt = indx / (_max_num_vars+1);
 	i = indx - nxt*(_max_num_vars+1);
-- 
2.43.0


From 0a8bf60ecca09097d0527d776ca898629e62d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 068/109] fix: slice intersection of misaligned steps and
 list_to_slice of constant or descending lists

---
 pygsti/tools/slicetools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/slicetools.py b/pygsti/tools/slicetools.py
index 4cad4b6..a230b81 100644
--- a/pygsti/tools/slicetools.py
+++ b/pygsti/tools/slicetools.py
@@ -82,6 +82,10 @@ def intersect(s1, s2):
     else:
         stop = min(s1.stop, s2.stop)
 
+    if s1.step not in (None, 1) and start is not None and \
+       ((s1.start or 0) - (s2.start or 0)) % s1.step != 0:
+        stop = start  # slices with the same step but incompatible offsets don't intersect
+
     if stop is not None and start is not None and stop < start:
         stop = start
 
@@ -167,11 +171,12 @@ def list_to_slice(lst, array_ok=False, require_contiguous=True):
     if len(lst) == 1: return slice(start, start + 1)
     step = lst[1] - lst[0]; stop = start + step * len(lst)
 
-    if list(lst) == list(range(start, stop, step)):
+    if step != 0 and list(lst) == list(range(start, stop, step)):
         if require_contiguous and step != 1:
             if array_ok: return _np.array(lst, _np.int64)
             else: raise ValueError("Slice must be contiguous (or array_ok must be True)!")
         if step == 1: step = None
+        if stop < 0: stop = None  # b/c a negative stop would be relative to the end of the sequence
         return slice(start, stop, step)
     elif array_ok:
         return _np.array(lst, _np.int64)
-- 
2.43.0


From b09ad238cc797dd989976fcc31f036b2cdb6fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 069/109] fix: matching with pass_indices, sparse_equal with
 explicit zeros, and expm_multiply_fast index types and input overwriting

---
 pygsti/objects/basis.py     | 20 +++-----------------
 pygsti/tools/matrixtools.py | 37 ++++++++++++++-----------------------
 2 files changed, 17 insertions(+), 40 deletions(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 21ce860..211dd8b 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -33,23 +33,9 @@ def _sparse_equal(A, B, atol=1e-8):
     if _np.array_equal(A.shape, B.shape) == 0:
         return False
 
-    r1, c1 = A.nonzero()
-    r2, c2 = B.nonzero()
-
-    lidx1 = _np.ravel_multi_index((r1, c1), A.shape)
-    lidx2 = _np.ravel_multi_index((r2, c2), B.shape)
-    sidx1 = lidx1.argsort()
-    sidx2 = lidx2.argsort()
-
-    index_match = _np.array_equal(lidx1[sidx1], lidx2[sidx2])
-    if index_match == 0:
-        return False
-    else:
-        v1 = A.data
-        v2 = B.data
-        V1 = v1[sidx1]
-        V2 = v2[sidx2]
-    return _np.allclose(V1, V2, atol=atol)
+    A = _sps.csr_matrix(A); B = _sps.csr_matrix(B)
+    diff = abs(A - B) - 1e-5 * abs(B)  # same criterion as numpy.allclose
+    return bool(diff.nnz == 0 or diff.max() <= atol)
 
 
 class Basis(object):
diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index 234ecdd..4a6f20b 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -913,10 +913,13 @@ def minweight_match_realmxeigs(a, b, metricfn=None,
     # real-pair -> conj-pair sub-optimally (i.e. there might be muliple
     # such conversions and we just choose one at random).
 
-    _, pairs1 = minweight_match(a[a_real], b[b_real], metricfn, True,
-                                pass_indices_to_metricfn)
-    _, pairs2 = minweight_match(a[a_reps], b[b_reps], metricfn, True,
-                                pass_indices_to_metricfn)
+    def match_subset(a_subset, b_subset):
+        if pass_indices_to_metricfn:  # `metricfn` expects indices into `a` and `b`, not into the subsets
+            return minweight_match(a_subset, b_subset, metricfn, True)[1]
+        return minweight_match(a[a_subset], b[b_subset], metricfn, True)[1]
+
+    pairs1 = match_subset(a_real, b_real)
+    pairs2 = match_subset(a_reps, b_reps)
 
     #pair1 gives matching of real values, pairs2 gives that of conj pairs.
     # Now just need to assemble a master pairs list to return.
@@ -1438,8 +1441,10 @@ if _fastcalc is None:
 else:
     def expm_multiply_fast(prepA, v, tol=EXPM_DEFAULT_TOL):
         A, mu, m_star, s, eta = prepA
-        return _fastcalc.custom_expm_multiply_simple_core(A.data, A.indptr, A.indices,
-                                                          v, mu, m_star, s, tol, eta)
+        return _fastcalc.custom_expm_multiply_simple_core(A.data, _np.ascontiguousarray(A.indptr, _np.int64),
+                                                          _np.ascontiguousarray(A.indices, _np.int64),
+                                                          _np.array(v, 'd'),  # a copy, as this is overwritten
+                                                          mu, m_star, s, tol, eta)
 
 
 def _custom_expm_multiply_simple_core(A, B, mu, m_star, s, tol, eta):  # t == 1.0 replaced below
@@ -1536,23 +1541,9 @@ def sparse_equal(A, B, atol=1e-8):
     if _np.array_equal(A.shape, B.shape) == 0:
         return False
 
-    r1, c1 = A.nonzero()
-    r2, c2 = B.nonzero()
-
-    lidx1 = _np.ravel_multi_index((r1, c1), A.shape)
-    lidx2 = _np.ravel_multi_index((r2, c2), B.shape)
-    sidx1 = lidx1.argsort()
-    sidx2 = lidx2.argsort()
-
-    index_match = _np.array_equal(lidx1[sidx1], lidx2[sidx2])
-    if index_match == 0:
-        return False
-    else:
-        v1 = A.data
-        v2 = B.data
-        V1 = v1[sidx1]
-        V2 = v2[sidx2]
-    return _np.allclose(V1, V2, atol=atol)
+    A = _sps.csr_matrix(A); B = _sps.csr_matrix(B)
+    diff = abs(A - B) - 1e-5 * abs(B)  # same criterion as numpy.allclose
+    return bool(diff.nnz == 0 or diff.max() <= atol)
 
 
 def sparse_onenorm(A):
-- 
2.43.0


From 496cd1c6c1b40b9bfa057c2028316c5b746ceb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 070/109] fix: partitions of zero

---
 pygsti/tools/listtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/tools/listtools.py b/pygsti/tools/listtools.py
index 6e7fd54..ff3a7c0 100644
--- a/pygsti/tools/listtools.py
+++ b/pygsti/tools/listtools.py
@@ -259,9 +259,9 @@ def partitions(n):
         Iterates over arrays of integers (partitions).
     """
     for p in sorted_partitions(n):
-        previous = tuple()
+        previous = None
         for pp in _itertools.permutations(p[::-1]):  # flip p so it's in *ascending* order
-            if pp > previous:  # only *unique* permutations
+            if previous is None or pp > previous:  # only *unique* permutations
                 previous = pp  # (relies in itertools implementatin detail that
                 yield pp      # any permutations of a sorted iterable are in
                 # sorted order unless they are duplicates of prior permutations
-- 
2.43.0


From bc7be4f7a8da460675b2dd04d576927eb8f22f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 071/109] fix: state fidelity loses precision for singular
 matrices; closest-unitary fidelity used only the first operation

---
 pygsti/report/reportables.py | 2 +-
 pygsti/tools/optools.py      | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygsti/report/reportables.py b/pygsti/report/reportables.py
index cb1f8a3..b71b66d 100644
--- a/pygsti/report/reportables.py
+++ b/pygsti/report/reportables.py
@@ -577,7 +577,7 @@ def closest_unitary_fidelity(A, B, mxBasis):  # assume vary model1, model2 fixed
 
     if decomp2['isUnitary']:
         closestUGateMx2 = B
-    else: closestUGateMx2 = _alg.find_closest_unitary_opmx(A)
+    else: closestUGateMx2 = _alg.find_closest_unitary_opmx(B)
 
     closeChoi1 = _tools.jamiolkowski_iso(closestUGateMx1)
     closeChoi2 = _tools.jamiolkowski_iso(closestUGateMx2)
diff --git a/pygsti/tools/optools.py b/pygsti/tools/optools.py
index 563d24f..8bf6bae 100644
--- a/pygsti/tools/optools.py
+++ b/pygsti/tools/optools.py
@@ -39,6 +39,11 @@ def _flat_mut_blks(i, j, blockDims):
 
 
 def _hack_sqrtm(A):
+    if _np.allclose(A, _np.conjugate(A.T), rtol=0, atol=1e-12):
+        # Hermitian case: stable even when A is (nearly) singular, where sqrtm loses precision
+        ev, U = _np.linalg.eigh(A)
+        return _np.dot(U * _np.sqrt(ev.astype('complex')), _np.conjugate(U.T))
+
     sqrt, _ = _spl.sqrtm(A, disp=False)  # Travis found this scipy function
     # to be incorrect in certain cases (we need a workaround)
     if _np.any(_np.isnan(sqrt)):  # this is sometimes a good fallback when sqrtm doesn't work.
@@ -1663,7 +1668,7 @@ def lindblad_error_generators(dmbasis_ham, dmbasis_other, normalize,
                         assert(_np.isclose(normfn(otherLindbladTerms[i]), 1.0))
 
         elif other_mode == "diag_affine":
-            otherLindbladTerms = [[None] * (other_nMxs - 1)] * 2 if sparse else \
+            otherLindbladTerms = [[None] * (other_nMxs - 1) for i in range(2)] if sparse else \
                 _np.empty((2, other_nMxs - 1, d2, d2), 'complex')
             for i, Lm in enumerate(other_mxs[1:]):  # don't include identity
                 otherLindbladTerms[0][i] = _lt.nonham_lindbladian(Lm, Lm, sparse)
-- 
2.43.0


From 92d92f7363e021207205fd545fd15b1459ae6ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 072/109] fix: logarithm of a unitary superoperator depended on
 an arbitrary global phase

---
 pygsti/tools/matrixtools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index 4a6f20b..de6af80 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -400,6 +400,12 @@ def unitary_superoperator_matrix_log(M, mxBasis):
     assert(_np.allclose(_np.abs(evals), 1.0))  # simple but technically incomplete check for a unitary superop
     # (e.g. could be anti-unitary: diag(1, -1, -1, -1))
     U = _gt.process_mx_to_unitary(M_std)
+
+    # U's global phase is arbitrary: choose it so that log's branch cut (at angle pi) lies in the middle of the
+    # largest gap between U's eigenvalues, so that logM doesn't depend on it and is a principal log if possible.
+    angles = _np.sort(_np.angle(_np.linalg.eigvals(U)))
+    gaps = _np.diff(_np.append(angles, angles[0] + 2 * _np.pi)); i = _np.argmax(gaps)
+    U = U * _np.exp(1j * (_np.pi - (angles[i] + gaps[i] / 2)))
     H = _spl.logm(U) / -1j  # U = exp(-iH)
     logM_std = _lt.hamiltonian_to_lindbladian(H)  # rho --> -i[H, rho] * sqrt(d)/2
     logM = change_basis(logM_std * (2.0 / _np.sqrt(H.shape[0])), "std", mxBasis)
-- 
2.43.0


From 04ffa62f957bcc139b5d676c868abd59e3cb1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 073/109] fix: map simulator crash on circuits none of whose
 instrument outcomes were observed

---
 pygsti/objects/mapevaltree.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/mapevaltree.py b/pygsti/objects/mapevaltree.py
index 6b2b9c0..8e1d721 100644
--- a/pygsti/objects/mapevaltree.py
+++ b/pygsti/objects/mapevaltree.py
@@ -240,13 +240,12 @@ class MapEvalTree(EvalTree):
         final_indices_per_circuit = {}
         for i, elabels in enumerate(self.simplified_circuit_elabels):
             element_offset = self.element_offsets_for_circuit[i]  # offset to i-th simple circuits elements
+            # Note: circuits without any elements (e.g. unobserved instrument outcomes) get empty lists
+            eLbl_indices_per_circuit[i] = []
+            final_indices_per_circuit[i] = []
             for j, eLbl in enumerate(elabels):
-                if i in eLbl_indices_per_circuit:
-                    eLbl_indices_per_circuit[i].append(elabel_lookup[eLbl])
-                    final_indices_per_circuit[i].append(element_offset + j)
-                else:
-                    eLbl_indices_per_circuit[i] = [elabel_lookup[eLbl]]
-                    final_indices_per_circuit[i] = [element_offset + j]
+                eLbl_indices_per_circuit[i].append(elabel_lookup[eLbl])
+                final_indices_per_circuit[i].append(element_offset + j)
 
         return all_elabels, eLbl_indices_per_circuit, final_indices_per_circuit
 
-- 
2.43.0


From 95edea5a558a365492ac33a5705ae3aae9b74546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 074/109] fix: likelihood and chi-squared functions with
 operation label aliases

---
 pygsti/objects/objectivefns.py | 4 +++-
 pygsti/tools/chi2fns.py        | 3 ++-
 pygsti/tools/likelihoodfns.py  | 7 +++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index 054c3e8..631dbe6 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -648,8 +648,10 @@ class LogLFunction(ObjectiveFunction):
             # Note: this is != circuit_list, as the tree hold *simplified* circuits
         else:
             #OLD: evalTree,lookup,outcomes_lookup = smart(model.bulk_evaltree,circuit_list, dataset=dataset)
+            # Note: simplify_circuits doesn't support aliased dataset (yet)
+            dstree = dataset if (opLabelAliases is None) else None
             evalTree, _, _, lookup, outcomes_lookup = model.bulk_evaltree_from_resources(
-                circuit_list, comm, dataset=dataset)
+                circuit_list, comm, dataset=dstree)
 
             #Fill cache dict if one was given
             if evaltree_cache is not None:
diff --git a/pygsti/tools/chi2fns.py b/pygsti/tools/chi2fns.py
index 0696007..69c639f 100644
--- a/pygsti/tools/chi2fns.py
+++ b/pygsti/tools/chi2fns.py
@@ -241,8 +241,9 @@ def chi2(model, dataset, circuits=None,
         outcomes_lookup = evaltree_cache['outcomes_lookup']
     else:
         #OLD: evTree,lookup,outcomes_lookup = smart(model.bulk_evaltree,circuits)
+        dstree = dataset if (opLabelAliases is None) else None
         evTree, _, _, lookup, outcomes_lookup = smart(model.bulk_evaltree_from_resources,
-                                                      circuits, comm, dataset=dataset)
+                                                      circuits, comm, dataset=dstree)
 
         #Fill cache dict if one was given
         if evaltree_cache is not None:
diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index 48d11ee..6e59986 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -150,8 +150,10 @@ def logl_terms(model, dataset, circuit_list=None,
         # Note: this is != circuit_list, as the tree hold *simplified* circuits
     else:
         #OLD: evalTree,lookup,outcomes_lookup = smart(model.bulk_evaltree,circuit_list, dataset=dataset)
+        # Note: simplify_circuits doesn't support aliased dataset (yet)
+        dstree = dataset if (opLabelAliases is None) else None
         evalTree, _, _, lookup, outcomes_lookup = smart(model.bulk_evaltree_from_resources,
-                                                        circuit_list, comm, dataset=dataset)
+                                                        circuit_list, comm, dataset=dstree)
 
         #Fill cache dict if one was given
         if evaltree_cache is not None:
@@ -1170,8 +1172,9 @@ def logl_max_terms(model, dataset, circuit_list=None,
         if circuit_list is None:
             circuit_list = list(dataset.keys())
 
+        dstree = dataset if (opLabelAliases is None) else None
         _, lookup, outcomes_lookup, nEls = \
-            smart(model.simplify_circuits, circuit_list, dataset)
+            smart(model.simplify_circuits, circuit_list, dstree)
         #Note: we don't actually need an evaltree, so we
         # won't make one here and so won't fill an empty
         # evaltree_cache.
-- 
2.43.0


From 44fc353ad08b6a6166b3cef1f38c917a41332e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 075/109] fix: map-simulator derivatives of a TP POVM's
 complement effect

ComplementSPAMVec.from_vector relied on the other effect vectors having been
updated before, which is not so for objects held in a model's operation
cache: the complement's finite-difference derivatives were zero.
---
 pygsti/objects/spamvec.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index a3a5f0f..7889d15 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1344,9 +1344,11 @@ class ComplementSPAMVec(DenseSPAMVec):
         -------
         None
         """
-        #Rely on prior .from_vector initialization of self.other_vecs, so
-        # we just construct our vector based on them.
-        #Note: this is needed for finite-differencing in map-based calculator
+        #Note: this is needed for finite-differencing in map-based calculator, where we
+        # can't rely on self.other_vecs being initialized (and before this vector is) otherwise.
+        for ovec in self.other_vecs:
+            local_inds = _modelmember._decompose_gpindices(self.gpindices, ovec.gpindices)
+            ovec.from_vector(v[local_inds], close, nodirty)
         self._construct_vector()
         if not nodirty: self.dirty = True
 
-- 
2.43.0


From f559c6f03ce33a289990c3fb47dae7ffdd8bff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 076/109] fix: chi-squared gradient and Hessian where
 probabilities are clipped

The weight is constant there.  Also, the approximate Hessian without a
gradient used uninitialized derivatives.
---
 pygsti/tools/chi2fns.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pygsti/tools/chi2fns.py b/pygsti/tools/chi2fns.py
index 69c639f..0fa687f 100644
--- a/pygsti/tools/chi2fns.py
+++ b/pygsti/tools/chi2fns.py
@@ -326,7 +326,7 @@ def chi2(model, dataset, circuits=None,
     if compute_hprobs:
         smart(model.bulk_fill_hprobs, hprobs, evTree,
               probs, dprobs, clipTo, check, comm, _filledarrays=(0, 2, 3))
-    elif returnGradient:
+    elif returnGradient or returnHessian:  # approximate Hessian needs just dprobs
         smart(model.bulk_fill_dprobs, dprobs, evTree,
               probs, clipTo, check, comm, _filledarrays=(0, 2))
         for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
@@ -350,13 +350,16 @@ def chi2(model, dataset, circuits=None,
     chi2 = _np.sum(v, axis=0)  # Note 0 is only axis in this case
 
     if returnGradient:
+        # when probs are clipped the denominator is constant
         t = ((probs - f) / cprobs)[:, None]  # (iElement, 0) = (KM,1)
-        dchi2 = N[:, None] * t * (2 - t) * dprobs  # (KM,1) * (KM,1) * (KM,N)  (K=#spam, M=#strings, N=#vec_gs)
+        dfactor = _np.where((probs < minProbClipForWeighting)[:, None], 2 * t, t * (2 - t))
+        dchi2 = N[:, None] * dfactor * dprobs  # (KM,1) * (KM,1) * (KM,N)  (K=#spam, M=#strings, N=#vec_gs)
 
         #account for omitted probs
         if firsts is not None:
-            t_firsts = (omitted_probs / clipped_oprobs)[:, None]
-            dchi2[firsts, :] -= N[firsts, None] * t_firsts * (2 - t_firsts) * dprobs_omitted_rowsum
+            dfactor_firsts = _np.where(omitted_probs == clipped_oprobs, 1.0,
+                                       2 * omitted_probs / clipped_oprobs)[:, None]
+            dchi2[firsts, :] -= N[firsts, None] * dfactor_firsts * dprobs_omitted_rowsum
 
         dchi2 = _np.sum(dchi2, axis=0)  # sum over operation sequences and spam labels => (N)
 
@@ -366,13 +369,15 @@ def chi2(model, dataset, circuits=None,
 
         dprobs_p = dprobs[:, None, :]  # (KM,1,N)
         t = ((probs - f) / cprobs)[:, None, None]  # (iElement, 0,0) = (KM,1,1)
-        dt = ((1.0 / cprobs - (probs - f) / cprobs**2)[:, None]
+        clipped = (probs < minProbClipForWeighting)  # where the denominator is constant
+        dt = ((1.0 / cprobs - _np.where(clipped, 0.0, (probs - f) / cprobs**2))[:, None]
               * dprobs)[:, :, None]  # (KM,1) * (KM,N) = (KM,N) => (KM,N,1)
+        clipped = clipped[:, None, None]
 
-        if approximateHessian:  # neglect all hprobs-proportional terms
-            d2chi2 = N[:, None, None] * (dt * (2 - t) * dprobs_p - t * dt * dprobs_p)
-        else:  # we have hprobs and can compute the true Hessian
-            d2chi2 = N[:, None, None] * (dt * (2 - t) * dprobs_p - t * dt * dprobs_p + t * (2 - t) * hprobs)
+        # neglect all hprobs-proportional terms in approximate case
+        d2chi2 = N[:, None, None] * _np.where(clipped, 2.0, 2 - 2 * t) * dt * dprobs_p
+        if not approximateHessian:  # we have hprobs and can compute the true Hessian
+            d2chi2 += N[:, None, None] * _np.where(clipped, 2 * t, t * (2 - t)) * hprobs
 
         d2chi2 = _np.sum(d2chi2, axis=0)  # sum over operation sequences and spam labels => (N1,N2)
         # (KM,1,1) * ( (KM,N1,1) * (KM,1,1) * (KM,1,N2) + (KM,1,1) * (KM,N1,1) * \
-- 
2.43.0


From 3d03d74a68bb839483f5b17364ae41bc6cef6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 077/109] fix: log-likelihood derivatives for data sets with
 omitted outcomes; logl_max checks

The contributions of unobserved outcomes to gradients and Hessians only
reached the first element, or were misplaced or left out.
---
 pygsti/algorithms/core.py     |   2 +-
 pygsti/tools/likelihoodfns.py | 118 +++++++++++++++++++++++-----------
 2 files changed, 82 insertions(+), 38 deletions(-)

diff --git a/pygsti/algorithms/core.py b/pygsti/algorithms/core.py
index 6808252..7544456 100644
--- a/pygsti/algorithms/core.py
+++ b/pygsti/algorithms/core.py
@@ -2261,7 +2261,7 @@ def _do_mlgst_base(dataset, startModel, circuitsToUse,
             evaltree_cache['totalCntVec'] = totalCntVec
 
     # The theoretical upper bound on the log(likelihood)
-    logL_upperbound = _tools.logl_max(mdl, dataset, dsCircuitsToUse,
+    logL_upperbound = _tools.logl_max(mdl, dataset, circuitsToUse,
                                       poissonPicture, check, opLabelAliases, evaltree_cache)
 
     if time_dependent:
diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index 6e59986..09b2767 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -470,7 +470,6 @@ def logl_jacobian(model, dataset, circuit_list=None,
     if len(firsts) > 0:
         firsts = _np.array(firsts, 'i')
         indicesOfCircuitsWithOmittedData = _np.array(indicesOfCircuitsWithOmittedData, 'i')
-        dprobs_omitted_rowsum = _np.empty((len(firsts), nP), 'd')
     else:
         firsts = None
 
@@ -510,22 +509,13 @@ def logl_jacobian(model, dataset, circuit_list=None,
         dprobs_factor = _np.where(probs < min_p, dprobs_factor_neg, dprobs_factor_pos)
         dprobs_factor = _np.where(countVecMx == 0, dprobs_factor_zerofreq, dprobs_factor)
 
+        # omitted probabilities equal one minus the sum of the others
         if firsts is not None:
-            dprobs_factor_omitted = totalCntVec[firsts] * _np.where(
-                omitted_probs >= a, 1.0,
-                (-1.0 / a**2) * omitted_probs**2 + 2 * omitted_probs / a)
-
-            for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
-                dprobs_omitted_rowsum[ii, :] = _np.sum(dprobs[lookup[i], :], axis=0)
+            dprobs_factor += _omitted_coefficients(probs, totalCntVec, lookup,
+                                                   indicesOfCircuitsWithOmittedData, min_p, a)[0]
 
         jac = dprobs * dprobs_factor[:, None]  # (KM,N) * (KM,1)   (N = dim of vectorized model)
 
-        # need to multipy dprobs_factor_omitted[i] * dprobs[k] for k in lookup[i] and
-        # add to dprobs[firsts[i]] for i in indicesOfCircuitsWithOmittedData
-        if firsts is not None:
-            jac[firsts, :] += dprobs_factor_omitted[:, None] * dprobs_omitted_rowsum
-            # nCircuitsWithOmittedData x N
-
     else:
         # (the non-poisson picture requires that the probabilities of the spam labels for a given string are constrained
         # to sum to 1)
@@ -673,18 +663,13 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
 
     if poissonPicture:
         #NOTE: hessian_from_hprobs MAY modify hprobs and dprobs12 (to save mem)
-        def hessian_from_hprobs(hprobs, dprobs12, cntVecMx, totalCntVec, pos_probs):
+        def hessian_from_hprobs(hprobs, dprobs12, cntVecMx, totalCntVec, pos_probs, omitted_coeffs):
             """ Factored-out computation of hessian from raw components """
             # Notation:  (K=#spam, M=#strings, N=#wrtParams1, N'=#wrtParams2 )
             totCnts = totalCntVec  # shorthand
             S = cntVecMx / min_p - totCnts  # slope term that is derivative of logl at min_p
             S2 = -0.5 * cntVecMx / (min_p**2)          # 2nd derivative of logl term at min_p
 
-            #Allocate these above?  Need to know block sizes of dprobs12 & hprobs...
-            if firsts is not None:
-                dprobs12_omitted_rowsum = _np.empty((len(firsts),) + dprobs12.shape[1:], 'd')
-                hprobs_omitted_rowsum = _np.empty((len(firsts),) + hprobs.shape[1:], 'd')
-
             # # (K,M,1,1) * (K,M,N,N')
             # hprobs_pos  = (-cntVecMx / pos_probs**2)[:,:,None,None] * dprobs12
             # # (K,M,1,1) * (K,M,N,N')
@@ -700,11 +685,6 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
             # hessian = _np.where( (probs < min_p)[:,:,None,None], hprobs_neg, hprobs_pos)
             # hessian = _np.where( (cntVecMx == 0)[:,:,None,None], hprobs_zerofreq, hessian) # (K,M,N,N')
 
-            omitted_probs = 1.0 - _np.array([_np.sum(pos_probs[lookup[i]]) for i in indicesOfCircuitsWithOmittedData])
-            for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
-                dprobs12_omitted_rowsum[ii, :, :] = _np.sum(dprobs12[lookup[i], :, :], axis=0)
-                hprobs_omitted_rowsum[ii, :, :] = _np.sum(hprobs[lookup[i], :, :], axis=0)
-
             #Accomplish the same thing as the above commented-out lines,
             # but with more memory effiency:
             dprobs12_coeffs = \
@@ -719,20 +699,14 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
                             -totCnts * ((-1.0 / a**2) * probs**2 + 2 * probs / a))
             hprobs_coeffs = _np.where(cntVecMx == 0, zfc, hprobs_coeffs)
 
-            if firsts is not None:
-                dprobs12_omitted_coeffs = totCnts[firsts] * _np.where(
-                    omitted_probs >= a, 0.0, (-2.0 / a**2) * omitted_probs + 2.0 / a)
-                hprobs_omitted_coeffs = totCnts[firsts] * _np.where(
-                    omitted_probs >= a, 1.0,
-                    (-1.0 / a**2) * omitted_probs**2 + 2 * omitted_probs / a)
+            # omitted probabilities equal one minus the sum of the others
+            if omitted_coeffs is not None:
+                hprobs_coeffs += omitted_coeffs
 
             # hessian = hprobs_coeffs * hprobs + dprobs12_coeff * dprobs12
             #  but re-using dprobs12 and hprobs memory (which is overwritten!)
             hprobs *= hprobs_coeffs[:, None, None]
             dprobs12 *= dprobs12_coeffs[:, None, None]
-            if firsts is not None:
-                hprobs[firsts, :, :] += hprobs_omitted_coeffs[:, None, None] * hprobs_omitted_rowsum
-                dprobs12[firsts, :, :] += dprobs12_omitted_coeffs[:, None, None] * dprobs12_omitted_rowsum
             hessian = dprobs12; hessian += hprobs
 
             # hessian[iSpamLabel,iCircuit,iModelParam1,iModelParams2] contains all
@@ -746,7 +720,7 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
         #(the non-poisson picture requires that the probabilities of the spam labels for a given string are constrained
         #to sum to 1)
         #NOTE: hessian_from_hprobs MAY modify hprobs and dprobs12 (to save mem)
-        def hessian_from_hprobs(hprobs, dprobs12, cntVecMx, totalCntVec, pos_probs):
+        def hessian_from_hprobs(hprobs, dprobs12, cntVecMx, totalCntVec, pos_probs, omitted_coeffs):
             """ Factored-out computation of hessian from raw components """
             S = cntVecMx / min_p  # slope term that is derivative of logl at min_p
             S2 = -0.5 * cntVecMx / (min_p**2)  # 2nd derivative of logl term at min_p
@@ -808,6 +782,22 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
         totalCntVec_all[lookup[i]] = sum(cnts.values())  # dataset[opStr].total
         cntVecMx_all[lookup[i]] = [cnts.get(x, 0) for x in outcomes_lookup[i]]
 
+    # Contributions of omitted outcomes (sparse data), whose terms depend on the sum of a circuit's other
+    # probabilities: coefficients of the second derivatives, and a term with the first derivatives.
+    omitted_coeffs_all = omitted_hessian = None
+    if poissonPicture and firsts is not None:
+        probs_all = _np.empty(nEls, 'd')
+        smart(model.bulk_fill_probs, probs_all, evalTree, clipTo=probClipInterval,
+              check=check, comm=comm, _filledarrays=(0,))
+        omitted_coeffs_all, omitted_curvatures = _omitted_coefficients(
+            probs_all, totalCntVec_all, lookup, indicesOfCircuitsWithOmittedData, min_p, a)
+        if any([c != 0 for _, c in omitted_curvatures]):
+            dprobs_all = _np.empty((nEls, nP), 'd')
+            smart(model.bulk_fill_dprobs, dprobs_all, evalTree, prMxToFill=probs_all,
+                  clipTo=probClipInterval, check=check, comm=comm, wrtBlockSize=blkSize1,
+                  _filledarrays=(0, 'prMxToFill'))
+            omitted_hessian = _omitted_hessian(dprobs_all, omitted_curvatures)
+
     tStart = _time.time()
 
     #Loop over subtrees
@@ -829,6 +819,8 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
         # Take portions of count arrays for this subtree
         cntVecMx = cntVecMx_all[evalSubTree.final_element_indices(evalTree)]
         totalCntVec = totalCntVec_all[evalSubTree.final_element_indices(evalTree)]
+        omitted_coeffs = omitted_coeffs_all[evalSubTree.final_element_indices(evalTree)] \
+            if (omitted_coeffs_all is not None) else None
         assert(len(cntVecMx) == len(probs))
 
         #compute pos_probs separately
@@ -866,7 +858,7 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
 
             subtree_hessian[slice1, slice2] = \
                 hessian_from_hprobs(hprobs, dprobs12, cntVecMx,
-                                    totalCntVec, pos_probs)
+                                    totalCntVec, pos_probs, omitted_coeffs)
             #NOTE: hessian_from_hprobs MAY modify hprobs and dprobs12
 
         #Gather columns from different procs and add to running final hessian
@@ -881,6 +873,9 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
             final_hessian[:, :] = 0.0  # zero out hessian so it won't contribute
         final_hessian = comm.allreduce(final_hessian)
 
+    if omitted_hessian is not None:
+        final_hessian += omitted_hessian
+
     #copy upper triangle to lower triangle (we only compute upper)
     for i in range(final_hessian.shape[0]):
         for j in range(i + 1, final_hessian.shape[1]):
@@ -1057,6 +1052,54 @@ def logl_approximate_hessian(model, dataset, circuit_list=None,
     #                similarity w/functions in logl_hessian)
     # So H = J * d2(logl)/dprobs2 * J.T becomes:
     hessian = _np.dot(dprobs.T, dprobs12_coeffs[:, None] * dprobs)
+
+    if poissonPicture:  # contributions of omitted outcomes (sparse data)
+        indicesOfCircuitsWithOmittedData = [i for i, c in enumerate(circuit_list)
+                                            if 0 < _slct.length(lookup[i]) < model.get_num_outcomes(c)]
+        _, omitted_curvatures = _omitted_coefficients(
+            probs, totalCntVec, lookup, indicesOfCircuitsWithOmittedData, min_p, a)
+        hessian += _omitted_hessian(dprobs, omitted_curvatures)
+
+    return hessian
+
+
+def _omitted_coefficients(probs, totalCntVec, lookup, indicesOfCircuitsWithOmittedData, min_p, a):
+    """
+    Helper function giving the derivatives of the log-likelihood terms of omitted outcomes, which are
+    functions of omitted_p = 1 - sum(p), with respect to the non-omitted probabilities p.  (Probabilities
+    less than `min_p` enter this sum as the constant `min_p`.)
+
+    Returns
+    -------
+    coeffs : numpy.ndarray
+        The derivative of the omitted terms with respect to each element of `probs`.
+    curvatures : list
+        A list of `(indices, c)` tuples, one per circuit with omitted data, giving the indices of the
+        elements `omitted_p` depends on and the second derivative with respect to any two of them.
+    """
+    coeffs = _np.zeros(len(probs), 'd')
+    curvatures = []
+    for i in indicesOfCircuitsWithOmittedData:
+        inds = _slct.as_array(lookup[i])
+        omitted_p = 1.0 - _np.sum(_np.maximum(probs[inds], min_p))
+        totCnts = totalCntVec[inds[0]]
+        inds = inds[probs[inds] >= min_p]
+        if omitted_p >= a:
+            coeffs[inds] = totCnts
+            curvatures.append((inds, 0.0))
+        else:
+            coeffs[inds] = totCnts * ((-1.0 / a**2) * omitted_p**2 + 2 * omitted_p / a)
+            curvatures.append((inds, -totCnts * ((-2.0 / a**2) * omitted_p + 2.0 / a)))
+    return coeffs, curvatures
+
+
+def _omitted_hessian(dprobs, curvatures):
+    """ Helper function summing the terms of the Hessian due to the curvatures of :func:`_omitted_coefficients` """
+    hessian = _np.zeros((dprobs.shape[1], dprobs.shape[1]), 'd')
+    for inds, c in curvatures:
+        if c != 0:
+            rowsum = _np.sum(dprobs[inds, :], axis=0)
+            hessian += c * _np.outer(rowsum, rowsum)
     return hessian
 
 
@@ -1118,7 +1161,8 @@ def logl_max(model, dataset, circuit_list=None, poissonPicture=True,
 
     if check:
         L = 0
-        for circuit in circuit_list:
+        if circuit_list is None: circuit_list = list(dataset.keys())
+        for circuit in _lt.apply_aliases_to_circuit_list(circuit_list, opLabelAliases):
             dsRow = dataset[circuit]
             N = dsRow.total  # sum of counts for all outcomes (all spam labels)
             for n in dsRow.counts.values():
@@ -1406,7 +1450,7 @@ def two_delta_logl_terms(model, dataset, circuit_list=None,
     Ns = dataset.get_degrees_of_freedom(ds_strs)
     k = max(Ns - mdl_dof, 1)
     # HACK - just take a single average #dof per circuit to use as chi_k distribution!
-    k = int(_np.ceil(k / (1.0 * len(circuit_list))))
+    k = int(_np.ceil(k / (1.0 * len(twoDeltaLogL_terms))))
 
     Nsigma = (twoDeltaLogL_terms - k) / _np.sqrt(2 * k)
     pvalue = _np.array([1.0 - _stats.chi2.cdf(x, k) for x in twoDeltaLogL_terms], 'd')
-- 
2.43.0


From 4d12111fb68cf93ae6618dc53fd17517edcbf29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 078/109] fix: objective function derivatives (omitted
 outcomes, spam penalty, forcing terms)

---
 pygsti/objects/objectivefns.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index 631dbe6..e21ab5e 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -155,7 +155,7 @@ class Chi2Function(ObjectiveFunction):
                                           2 * self.N[self.firsts] * omitted_probs / clipped_oprobs)
         fullv = _np.sqrt(v[self.firsts]**2 + self.N[self.firsts] * omitted_probs**2 / clipped_oprobs)
         # avoid NaNs when both fullv and v[firsts] are zero - result should be *zero* in this case
-        fullv[v[self.firsts] == 0.0] = 1.0
+        fullv[fullv == 0.0] = 1.0
         dprobs[self.firsts, :] = (0.5 / fullv[:, None]) * (
             2 * v[self.firsts, None] * dprobs[self.firsts, :]
             - dprobs_factor_omitted[:, None] * dprobs_omitted_rowsum)
@@ -422,9 +422,9 @@ class Chi2Function(ObjectiveFunction):
                 off += _cptp_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.cptp_penalty_factor,
                                               self.opBasis)
 
-                if self.spam_penalty_factor != 0:
-                    off += _spam_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.spam_penalty_factor,
-                                                  self.opBasis)
+            if self.spam_penalty_factor != 0:
+                off += _spam_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.spam_penalty_factor,
+                                              self.opBasis)
 
         # Zero-out insignificant entries in jacobian -- seemed to help some, but leaving this out,
         # thinking less complicated == better
@@ -476,10 +476,10 @@ class FreqWeightedChi2Function(Chi2Function):
         self.fweights = fweights
         self.z = _np.zeros(self.KM, 'd')
 
-    def _get_weights(self, p):
+    def get_weights(self, p):
         return self.fweights
 
-    def _get_dweights(self, p, wts):
+    def get_dweights(self, p, wts):
         return self.z
 
 
@@ -925,8 +925,10 @@ class LogLFunction(ObjectiveFunction):
                 * _np.where(omitted_probs >= self.a,
                             1.0, (-1.0 / self.a**2) * omitted_probs**2 + 2 * omitted_probs / self.a)
 
+            # Note: probabilities < min_p contribute a constant (min_p) to omitted_probs
             for ii, i in enumerate(self.indicesOfCircuitsWithOmittedData):
-                self.dprobs_omitted_rowsum[ii, :] = _np.sum(dprobs[self.lookup[i], :], axis=0)
+                self.dprobs_omitted_rowsum[ii, :] = _np.dot((self.probs[self.lookup[i]] >= self.min_p).astype('d'),
+                                                            dprobs[self.lookup[i], :])
 
         dprobs *= dprobs_factor[:, None]  # (KM,N) * (KM,1)   (N = dim of vectorized model)
         #Note: this also sets jac[0:KM,:]
@@ -946,7 +948,8 @@ class LogLFunction(ObjectiveFunction):
                                           self.opBasis)
 
         if self.forcefn_grad is not None:
-            self.jac[self.forceOffset:, :] = -self.forcefn_grad
+            forceVec = self.forceShift - _np.dot(self.forcefn_grad, self.mdl.to_vector())
+            self.jac[self.forceOffset:, :] = -self.forcefn_grad / (2.0 * _np.sqrt(forceVec)[:, None])
 
         if self.check: _opt.check_jac(lambda v: self.poisson_picture_logl(v), vectorGS, self.jac,
                                       tol=1e-3, eps=1e-6, errType='abs')
@@ -1256,7 +1259,7 @@ def _spam_penalty_jac_fill(spamPenaltyVecGradToFill, mdl, prefactor, opBasis):
 
         #get sgn(denMx) == d(|denMx|_Tr)/d(denMx) in std basis
         # dmDim = denMx.shape[0]
-        denMx = _tools.vec_to_stdmx(prepvec, opBasis)
+        denMx = _tools.vec_to_stdmx(prepvec.todense(), opBasis)
         assert(_np.linalg.norm(denMx - denMx.T.conjugate()) < 1e-4), \
             "denMx should be Hermitian!"
 
@@ -1290,7 +1293,7 @@ def _spam_penalty_jac_fill(spamPenaltyVecGradToFill, mdl, prefactor, opBasis):
             nP = effectvec.num_params()
 
             #get sgn(EMx) == d(|EMx|_Tr)/d(EMx) in std basis
-            EMx = _tools.vec_to_stdmx(effectvec, opBasis)
+            EMx = _tools.vec_to_stdmx(effectvec.todense(), opBasis)
             # dmDim = EMx.shape[0]
             assert(_np.linalg.norm(EMx - EMx.T.conjugate()) < 1e-4), \
                 "EMx should be Hermitian!"
-- 
2.43.0


From a82f8d7c1ae3dff45efc8b06ae69a5b07c80b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 079/109] fix: DataSet.merge_outcomes with directives for
 outcomes that do not occur

---
 pygsti/objects/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index fbf93a7..3ea7e8b 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1468,7 +1468,8 @@ class DataSet(object):
         for new_outcome, old_outcome_list in label_merge_dict.items():
             new_index = new_outcome_indices[new_outcome]
             for old_outcome in old_outcome_list:
-                oli_map[self.olIndex[old_outcome]] = new_index
+                if old_outcome in self.olIndex:  # (directives for outcomes that don't occur are allowed)
+                    oli_map[self.olIndex[old_outcome]] = new_index
 
         #Future - when recordZeroCnts=False these may not need to be so large
         new_olis = _np.array(range(nNewOutcomes), _np.int64)
-- 
2.43.0


From edfb7df95d808fa1ebdb59d2fa1cdf662cefb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 080/109] fix: circuit lists and structures (empty starting
 list, pair reduction lost in truncate, relabelling, LGST-estimable circuits)

---
 pygsti/construction/circuitconstruction.py |  7 +++---
 pygsti/construction/stdlists.py            |  6 ++---
 pygsti/objects/circuitstructure.py         | 26 ++++++++++++----------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 84bf7a2..da8d7e3 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -500,8 +500,8 @@ def list_strings_lgst_can_estimate(dataset, prepStrs, effectStrs):
 
     estimatable = []
     circuits = list(dataset.keys())
-    pre = tuple(effectStrs[0]); l0 = len(pre)  # the first effect string
-    post = tuple(prepStrs[0]); l1 = len(post)  # the first prep string
+    pre = tuple(prepStrs[0]); l0 = len(pre)  # the first prep string
+    post = tuple(effectStrs[0]); l1 = len(post)  # the first effect string
 
     def _root_is_ok(rootStr):
         for estr in effectStrs:
@@ -513,7 +513,8 @@ def list_strings_lgst_can_estimate(dataset, prepStrs, effectStrs):
     #check if string has first fiducial at beginning & end, and if so
     # strip that first fiducial off, leaving a 'root' string that we can test
     for s in circuits:
-        if s[0:l0] == pre and s[len(s) - l1:] == post:
+        t = tuple(s)
+        if len(t) >= l0 + l1 and t[0:l0] == pre and t[len(t) - l1:] == post:
             root = s[l0:len(s) - l1]
             if _root_is_ok(root):
                 estimatable.append(root)
diff --git a/pygsti/construction/stdlists.py b/pygsti/construction/stdlists.py
index 83eaec7..62daa33 100644
--- a/pygsti/construction/stdlists.py
+++ b/pygsti/construction/stdlists.py
@@ -171,7 +171,7 @@ def make_lsgst_lists(opLabelSrc, prepStrs, effectStrs, germList, maxLengthList,
         fiducialPairs = {germ: lst for germ in germList}
 
     #running list of all strings so far (LGST strings or empty)
-    lsgst_list = lgst_list[:] if includeLGST else _gsc.circuit_list([()])
+    lsgst_list = lgst_list[:] if includeLGST else []
     lsgst_listOfLists = []  # list of lists to return
 
     Rfn = _getTruncFunction(truncScheme)
@@ -695,7 +695,7 @@ def make_elgst_lists(opLabelSrc, germList, maxLengthList,
     singleOps = _gsc.circuit_list([(g,) for g in opLabels])
 
     #running list of all strings so far (length-1 strs or empty)
-    elgst_list = singleOps[:] if includeLGST else _gsc.circuit_list([()])
+    elgst_list = singleOps[:] if includeLGST else []
     elgst_listOfLists = []  # list of lists to return
 
     Rfn = _getTruncFunction(truncScheme)
@@ -710,7 +710,7 @@ def make_elgst_lists(opLabelSrc, germList, maxLengthList,
 
         if nest:
             elgst_list += lst  # add new strings to running list
-            elgst_listOfLists.append(_lt.remove_duplicates(singleOps + elgst_list))
+            elgst_listOfLists.append(_lt.remove_duplicates(elgst_list))
         else:
             elgst_listOfLists.append(_lt.remove_duplicates(lst))
 
diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index f16d54b..14f2654 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -87,7 +87,7 @@ class CircuitPlaquette(object):
             s2 = s if (self.aliases is None) else \
                 s.replace_layers_with_aliases(self.aliases)
 
-            if new_fidpairs:
+            if new_fidpairs is not None:
                 prep, effect = self.fidpairs[k]
                 prep2 = prep if (self.aliases is None) else \
                     prep.replace_layers_with_aliases(self.aliases)
@@ -96,7 +96,7 @@ class CircuitPlaquette(object):
 
             if dsFilter is None or s2 in dsFilter:
                 new_elements.append((i, j, s2))
-                if new_fidpairs: new_fidpairs.append((prep2, effect2))
+                if new_fidpairs is not None: new_fidpairs.append((prep2, effect2))
 
         ret = CircuitPlaquette(self.base, self.rows, self.cols,
                                new_elements, None, new_fidpairs)
@@ -168,7 +168,8 @@ class CircuitPlaquette(object):
         """
         P = processor_fn
         updated_elements = [(i, j, P(s)) for i, j, s in self.elements]
-        updated_fidpairs = [(P(prep), P(meas)) for prep, meas in self.fidpairs]
+        updated_fidpairs = [(P(prep), P(meas)) for prep, meas in self.fidpairs] \
+            if (self.fidpairs is not None) else None
         return CircuitPlaquette(P(self.base), self.rows, self.cols,
                                 updated_elements, updated_aliases, updated_fidpairs)
 
@@ -556,13 +557,12 @@ class LsGermsStructure(CircuitStructure):
 
         for (L, germ), plaq in self._plaquettes.items():
             basestr = plaq.base
-            if seqs is None:
-                fidpairs = all_fidpairs
-            else:
-                fidpairs = []
-                for i, j in all_fidpairs:
-                    if prepStrs[i] + basestr + effectStrs[j] in seqs:
-                        fidpairs.append((i, j))
+            current_pairs = set(plaq.fidpairs)  # may be just a subset of all the pairs
+            fidpairs = []
+            for i, j in all_fidpairs:
+                if (prepStrs[i], effectStrs[j]) in current_pairs and \
+                   (seqs is None or prepStrs[i] + basestr + effectStrs[j] in seqs):
+                    fidpairs.append((i, j))
 
             if (L in Ls) and (germ in germs):
                 cpy.add_plaquette(basestr, L, germ, fidpairs)
@@ -638,7 +638,8 @@ class LsGermsStructure(CircuitStructure):
         cpy.allstrs = list(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
         cpy.unindexed = list(map(P, self.unindexed))
-        cpy._plaquettes = {k: v.process_circuits(P, updated_aliases) for k, v in self._plaquettes.items()}
+        cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
+                           for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
         cpy._baseStrToLGerm = {P(base): (L, P(germ)) for base, (L, germ) in self._baseStrToLGerm.items()}
         return cpy
@@ -1004,7 +1005,8 @@ class LsGermsSerialStructure(CircuitStructure):
         cpy.allstrs = list(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
         cpy.unindexed = list(map(P, self.unindexed))
-        cpy._plaquettes = {k: v.process_circuits(P, updated_aliases) for k, v in self._plaquettes.items()}
+        cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
+                           for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
         cpy._baseStrToLGerm = {P(base): (L, P(germ)) for base, (L, germ) in self._baseStrToLGerm.items()}
         return cpy
-- 
2.43.0


From cbdf2ca1a2794130bc99c0b9fec441f0e6ca9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 081/109] fix: compilations on a subset of the qubits stay on
 it; Pauli randomization and checks of read-only circuits

---
 pygsti/algorithms/compilers.py       | 11 ++++++-----
 pygsti/objects/compilationlibrary.py |  6 +++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pygsti/algorithms/compilers.py b/pygsti/algorithms/compilers.py
index 21476e3..a586894 100644
--- a/pygsti/algorithms/compilers.py
+++ b/pygsti/algorithms/compilers.py
@@ -414,13 +414,14 @@ def compile_symplectic(s, pspec=None, qubit_labels=None, iterations=20, algorith
 
     # If we want to Pauli randomize the circuits, we insert a random compiled Pauli layer between every layer.
     if paulirandomize:
+        circuit = circuit.copy(editable=True)
         paulilist = ['I', 'X', 'Y', 'Z']
         d = circuit.depth()
         for i in range(0, d + 1):
             # Different labelling depending on qubit_labels and pspec.
             if pspec is None:
                 pcircuit = _Circuit(layer_labels=[_Label(paulilist[_np.random.randint(4)], k)
-                                                  for k in range(n)], num_lines=n, identity='I')
+                                                  for k in range(n)], num_lines=n)
             else:
                 # Map the circuit to the correct qubit labels
                 if qubit_labels is not None:
@@ -1297,7 +1298,7 @@ def compile_cnot_circuit_using_BGE_algorithm(s, pspec, qubit_labels=None, clname
            ), "Algorithm has failed! Perhaps the input wasn't a CNOT circuit."
     # The instructions returned are for mapping s -> I, so we need to reverse them.
     instructions.reverse()
-    circuit = _Circuit(gatesring=instructions, line_labels=qubit_labels).parallelize()
+    circuit = _Circuit(layer_labels=instructions, line_labels=qubit_labels).parallelize()
     if check:
         s_implemented, p_implemented = _symp.symplectic_rep_of_clifford_circuit(circuit)
         assert(_np.array_equal(s_implemented, s)), "Algorithm has failed! Perhaps the input wasn't a CNOT circuit."
@@ -1903,7 +1904,7 @@ def compile_stabilizer_state(s, p, pspec, qubit_labels=None, iterations=20, paul
             i += 1
             # Do the depth-compression *before* changing gate library
             tc.compress_depth(oneQgate_relations=oneQgate_relations, verbosity=0)
-            tc.change_gate_library(pspec.compilations['paulieq'])  # ,identity=pspec.identity)
+            tc.change_gate_library(pspec.compilations['paulieq'], allowed_filter=set(qubit_labels))
             cost = costfunction(tc, pspec)
             # If this is the best circuit so far, then save it.
             if cost < mincost:
@@ -2073,7 +2074,7 @@ def compile_stabilizer_measurement(s, p, pspec, qubit_labels=None, iterations=20
             # inverse).
             tc.compress_depth(oneQgate_relations=oneQgate_relations, verbosity=0)
             # Change into the gates of pspec.
-            tc.change_gate_library(pspec.compilations['paulieq'])  # ,identity=pspec.identity)
+            tc.change_gate_library(pspec.compilations['paulieq'], allowed_filter=set(qubit_labels))
             # If this is the best circuit so far, then save it.
             cost = costfunction(tc, pspec)
             if cost < mincost:
@@ -2812,7 +2813,7 @@ def compile_conditional_symplectic(s, pspec, qubit_labels=None, calg='COiCAGE',
     if check:
         # Only the circuit with the precircuit prefixed as format that can be easily checked as corrected. That
         # circuit should have an s-matrix with the RHS equal to the RHS of `s`.
-        checkcircuit = precircuit.copy()
+        checkcircuit = precircuit.copy(editable=True)
         checkcircuit.append_circuit(circuit)
         scheck, pcheck = _symp.symplectic_rep_of_clifford_circuit(checkcircuit)
         assert(_np.array_equal(scheck[:, n:2 * n], s[:, n:2 * n])), "Compiler has failed!"
diff --git a/pygsti/objects/compilationlibrary.py b/pygsti/objects/compilationlibrary.py
index 4fdcacf..d4de647 100644
--- a/pygsti/objects/compilationlibrary.py
+++ b/pygsti/objects/compilationlibrary.py
@@ -693,7 +693,7 @@ class CompilationLibrary(_collections.OrderedDict):
             key = oplabel
 
         if not force and key in self:
-            return self[oplabel]  # don't re-compute unless we're told to
+            return self[key]  # don't re-compute unless we're told to
 
         circuit = self.construct_nonlocal_compilation_of(
             oplabel, allowed_filter=allowed_filter, verbosity=verbosity, check=check)
@@ -814,6 +814,10 @@ class CompilationLibrary(_collections.OrderedDict):
             # We don't have to account for `force` manually here, because it is dealt with inside this function
             circuit = self.get_local_compilation_of(
                 oplabel, unitary=None, srep=None, max_iterations=10, force=force, verbosity=verbosity)
+            # A stored compilation may be a non-local one that leaves the allowed set of qubits.
+            if isinstance(allowed_filter, set) and \
+               not all([circuit.is_line_idling(q) for q in circuit.line_labels if q not in allowed_filter]):
+                raise ValueError("The stored compilation uses qubits that are not allowed!")
             # Check for the case where this function won't currently behave as expected.
             if isinstance(allowed_filter, dict):
                 raise ValueError("This function may behave incorrectly when the allowed_filer is a dict "
-- 
2.43.0


From 6c41f4b87c0c9153bf82fc9f147c0ff809b0f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 082/109] fix: layers pairing an odd number of qubits, and germ
 mirror circuits without Paulis

---
 pygsti/algorithms/randomcircuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/algorithms/randomcircuit.py b/pygsti/algorithms/randomcircuit.py
index ee052e6..f05249c 100644
--- a/pygsti/algorithms/randomcircuit.py
+++ b/pygsti/algorithms/randomcircuit.py
@@ -141,7 +141,7 @@ def circuit_layer_by_pairing_qubits(pspec, qubit_labels=None, twoQprob=0.5, oneQ
     if n % 2 != 0:
         q = qubits[_np.random.randint(0, n)]
         name = oneQgatenames[_np.random.randint(0, num_oneQgatenames)]
-        del qubits[q]  # XXX is this correct?
+        qubits.remove(q)
         sampled_layer.append(_lbl.Label(name, q))
 
     # Go through n//2 times until all qubits have been paired up and gates on them sampled
@@ -2762,6 +2762,8 @@ def random_germpower_mirror_circuits(pspec, depths, qubit_labels=None, localclif
 
             circuit.append_circuit(pauli_circuit)
             circuit.append_circuit(circuit_inv)
+        else:
+            circuit.append_circuit(circuit_inv)
 
         # If we start with a random layer of 1-qubit Cliffords, we sample this here.
         if localclifford:
-- 
2.43.0


From 98ea3552e728face6c49ef991d13dd0d1777563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 083/109] fix: hypothesis tests with given graphs, JSD
 threshold, chi2 error bars, wildcard budgets of several outcomes

---
 pygsti/objects/confidenceregionfactory.py |   1 +
 pygsti/objects/datacomparator.py          |   6 +-
 pygsti/objects/hypothesistest.py          |   7 +-
 pygsti/objects/wildcardbudget.py          | 103 +++++-----------------
 4 files changed, 33 insertions(+), 84 deletions(-)

diff --git a/pygsti/objects/confidenceregionfactory.py b/pygsti/objects/confidenceregionfactory.py
index 0d0e610..b55603c 100644
--- a/pygsti/objects/confidenceregionfactory.py
+++ b/pygsti/objects/confidenceregionfactory.py
@@ -250,6 +250,7 @@ class ConfidenceRegionFactory(object):
                                         probClipInterval, memLimit=memLimit,
                                         opLabelAliases=aliases,
                                         approximateHessian=approximate)
+            hessian = hessian / 2  # chi2 ~ -2*log(L), so Fisher information is *half* of chi2's Hessian
 
             nonMarkRadiusSq = max(chi2 - (nDataParams - nModelParams), MIN_NON_MARK_RADIUS)
         else:
diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index 8d52f00..68a4e58 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -323,7 +323,7 @@ class DataComparator():
             dsList = dataset_list_or_multidataset
             olIndex = dsList[0].olIndex
             olIndexListBool = [ds.olIndex == (olIndex) for ds in dsList]
-            DS_names = list(range(len(dataset_list_or_multidataset)))
+            if DS_names is None: DS_names = list(range(len(dataset_list_or_multidataset)))
             if not _np.all(olIndexListBool):
                 raise ValueError('Outcomes labels and order must be the same across datasets.')
             if circuits == 'all':
@@ -529,7 +529,7 @@ class DataComparator():
         weighting[circuits] = 1 - aggregate_test_weighting
 
         if pass_alpha: passing_graph = 'Holms'
-        else: passing_graph = 'none'
+        else: passing_graph = _np.zeros((len(hypotheses), len(hypotheses)), float)
 
         hypotest = _HypothesisTest(hypotheses, significance=significance, weighting=weighting,
                                    passing_graph=passing_graph, local_corrections=per_sequence_correction)
@@ -554,7 +554,7 @@ class DataComparator():
         self.llr_pseudothreshold = compute_llr_threshold(self.pVal_pseudothreshold, self.dof)
 
         if self.fixed_totalcount_data:
-            self.jsd_pseudothreshold = self.llr_pseudothreshold / self.counts_per_sequence
+            self.jsd_pseudothreshold = self.llr_pseudothreshold / (2 * self.counts_per_sequence)
 
         temp_hypothesis_rejected_dict = _copy.copy(hypotest.hypothesis_rejected)
         self.inconsistent_datasets_detected = any(list(temp_hypothesis_rejected_dict.values()))
diff --git a/pygsti/objects/hypothesistest.py b/pygsti/objects/hypothesistest.py
index 61fdc71..c99389f 100644
--- a/pygsti/objects/hypothesistest.py
+++ b/pygsti/objects/hypothesistest.py
@@ -132,6 +132,8 @@ class HypothesisTest(object):
         if isinstance(passing_graph, str):
             assert(passing_graph == 'Holms')
             self._initialize_to_weighted_holms_test()
+        else:
+            self.passing_graph = _np.array(passing_graph, float)
 
         self.local_significance = {}
         if isinstance(weighting, str):
@@ -268,7 +270,7 @@ class HypothesisTest(object):
                                     a = dynamic_passing_graph[lind, kind] + \
                                         dynamic_passing_graph[lind, hind] * dynamic_passing_graph[hind, kind]
                                     b = 1. - dynamic_passing_graph[lind, hind] * dynamic_passing_graph[hind, lind]
-                                    new_passing_passing_graph[lind, kind] = a / b
+                                    new_passing_passing_graph[lind, kind] = a / b if b > 0 else 0.
 
                         del dynamic_local_significance[h]
                         dynamic_passing_graph = new_passing_passing_graph.copy()
@@ -311,7 +313,8 @@ class HypothesisTest(object):
                     if test_significance > self.significance_tested_at[h]:
                         self.significance_tested_at[h] = test_significance
 
-            self.pvalue_pseudothreshold[hypotheses] = significance / len(dynamic_hypotheses)
+            # (if every hypothesis has been rejected then the last one was tested at the full significance)
+            self.pvalue_pseudothreshold[hypotheses] = significance / max(len(dynamic_hypotheses), 1)
 
         elif correction == 'Hochberg':
 
diff --git a/pygsti/objects/wildcardbudget.py b/pygsti/objects/wildcardbudget.py
index 43a573a..5fbf24f 100644
--- a/pygsti/objects/wildcardbudget.py
+++ b/pygsti/objects/wildcardbudget.py
@@ -399,7 +399,6 @@ class WildcardBudget(object):
         # BUT they *do* enter in poisson-picture logl...
         # so set freqs very small so ratio is large (and probably not chosen)
         MIN_FREQ = 1e-8
-        MIN_FREQ_OVER_2 = MIN_FREQ / 2
         zero_inds = _np.where(freqs == 0.0)[0]
         if len(zero_inds) > 0:
             freqs = freqs.copy()  # copy for now instead of doing something more clever
@@ -410,7 +409,6 @@ class WildcardBudget(object):
         tvd_precomp = 0.5 * _np.abs(probs_in - freqs)
         A_precomp = (probs_in > freqs)
         B_precomp = (probs_in < freqs)
-        C_precomp = (probs_in == freqs)
 
         tol = 1e-6  # for instance, when W==0 and TVD_at_breakpt is 1e-17
 
@@ -419,6 +417,14 @@ class WildcardBudget(object):
             fvec = freqs[elInds]
             qvec = probs_in[elInds]
 
+            initialTVD = sum(tvd_precomp[elInds])  # 0.5 * sum(_np.abs(qvec - fvec))
+            if initialTVD <= W + tol:  # TVD is already "in-budget" for this circuit - can adjust to fvec exactly
+                probs_out[elInds] = fvec  # _tools.matrixtools._fas(probs_out, (elInds,), fvec)
+                continue
+
+            A = A_precomp[elInds]
+            B = B_precomp[elInds]
+
             if _np.min(qvec) < 0:
                 #Stopgap solution when a probability is negative: use wcbudget to move as
                 # much negative prob to zero as possible, while reducing all the positive
@@ -432,90 +438,29 @@ class WildcardBudget(object):
                                                "pos_sum=%.3g)") % (circ.str, neg_sum, pos_sum))
 
                 if -neg_sum < W:  # then there's enough budget to pay for all of negatives
-                    alpha = -neg_sum / len(neg_inds) * 1.0 / qvec[pos_inds]  # sum(qvec[pos])*alpha=-neg_sum*sum(ones/N)
-                    qvec[pos_inds] *= 1.0 - alpha
+                    qvec[pos_inds] *= 1.0 + neg_sum / pos_sum  # reduces sum(qvec[pos]) by -neg_sum
                     qvec[neg_inds] = 0.0
                     W -= (-neg_sum)
                 else:
-                    alpha = W / len(neg_inds) * 1.0 / qvec[pos_inds]  # sum(qvec[pos])*alpha = W * sum(ones/N)
-                    beta = -W / len(neg_inds) * 1.0 / qvec[neg_inds]  # sum(beta*qvec[neg]) = -W * sum(ones/N)
-                    qvec[pos_inds] *= 1.0 - alpha
-                    qvec[neg_inds] *= 1.0 - beta
+                    qvec[pos_inds] *= 1.0 - W / pos_sum  # reduces sum(qvec[pos]) by W
+                    qvec[neg_inds] *= 1.0 + W / neg_sum  # increases sum(qvec[neg]) by W
                     W = 0
+                A = (qvec > fvec); B = (qvec < fvec)
 
-            initialTVD = sum(tvd_precomp[elInds])  # 0.5 * sum(_np.abs(qvec - fvec))
-            if initialTVD <= W + tol:  # TVD is already "in-budget" for this circuit - can adjust to fvec exactly
-                probs_out[elInds] = fvec  # _tools.matrixtools._fas(probs_out, (elInds,), fvec)
-                continue
-
-            A = A_precomp[elInds]
-            B = B_precomp[elInds]
-            C = C_precomp[elInds]
-            sum_fA = sum(fvec[A])
-            sum_fB = sum(fvec[B])
-            sum_qA = sum(qvec[A])
-            sum_qB = sum(qvec[B])
-            sum_qC = sum(qvec[C])
-
-            #Note: need special case for fvec == 0
+            # Elements with q > f (A) become min(q, alpha * f) and elements with q < f (B) become max(q, beta * f),
+            # where alpha >= 1 and beta <= 1 are chosen so that W is taken away from A and given to B.
             ratio_vec = qvec / fvec
-            # remaining_indices = list(range(len(ratio_vec)))
-            sorted_indices_and_ratios = sorted(
-                [(kx, rx) for kx, rx in enumerate(ratio_vec)], key=lambda x: abs(1.0 - x[1]))
-            nMovedToC = 0
-
-            #print("Circuit ",i, " indices_and_ratios = ",sorted_indices_and_ratios)
-
-            for j, ratio in sorted_indices_and_ratios:
-
-                if ratio > 1.0:  # j in A
-                    alpha_break = ratio
-                    beta_break = _np.nan if sum_fB == 0.0 else (1.0 - alpha_break * sum_fA - sum_qC) / sum_fB  # beta_fn
-
-                    TVD_at_breakpt = 0.5 * (sum_qA - alpha_break * sum_fA + beta_break * sum_fB - sum_qB)  # computeTVD
-                    #print("A TVD at ",alpha_break,beta_break,"=",TVD_at_breakpt, "(ratio = ",ratio,")")
-                    if TVD_at_breakpt <= W + tol: break  # exit loop
-
-                    # move j from A -> C
-                    sum_qA -= qvec[j]; sum_qC += qvec[j]; sum_fA -= fvec[j]
-                elif ratio < 1.0:  # j in B
-                    beta_break = ratio
-                    alpha_break = _np.nan if sum_fA == 0.0 else (
-                        1.0 - beta_break * sum_fB - sum_qC) / sum_fA  # alpha_fn
-
-                    TVD_at_breakpt = 0.5 * (sum_qA - alpha_break * sum_fA + beta_break * sum_fB - sum_qB)  # computeTVD
-                    #print("B TVD at ",alpha_break,beta_break,"=",TVD_at_breakpt, "(ratio = ",ratio,")")
-                    if TVD_at_breakpt <= W + tol: break  # exit loop
+            pvec = qvec.copy()
+            for inds, sgn in ((_np.where(A)[0], 1.0), (_np.where(B)[0], -1.0)):
+                inds = inds[_np.argsort(sgn * ratio_vec[inds])]  # elements with ratio closest to 1 first
+                sum_q, sum_f = sum(qvec[inds]), sum(fvec[inds])
+                for k, j in enumerate(inds):
+                    if sgn * (sum_q - ratio_vec[j] * sum_f) <= W:  # then alpha (or beta) is this close to 1
+                        scale = 1.0 + sgn * max(sgn * ((sum_q - sgn * W) / sum_f - 1.0), 0.0)  # alpha or beta
+                        pvec[inds[k:]] = scale * fvec[inds[k:]]
+                        break
+                    sum_q -= qvec[j]; sum_f -= fvec[j]  # element `j` retains its value
 
-                    # move j from B -> C
-                    sum_qB -= qvec[j]; sum_qC += qvec[j]; sum_fB -= fvec[j]
-
-                else:  # j in C
-                    #print("C TVD at ",alpha_break,beta_break,"=",TVD_at_breakpt, "(ratio = ",ratio,")")
-                    pass  # (no movement, nothing happens)
-
-                nMovedToC += 1
-            else:
-                assert(False), "TVD should eventually reach zero (I think)!"
-
-            #Now A,B,C are fixed to what they need to be for our given W
-            # test if len(A) > 0, make tol here *smaller* than that assigned to zero freqs above
-            if sum_fA > MIN_FREQ_OVER_2:
-                alpha = (sum_qA - sum_qB - 2 * W) / sum_fA if sum_fB == 0 else \
-                    (sum_qA - sum_qB + 1.0 - sum_qC - 2 * W) / (2 * sum_fA)  # compute_alpha
-                beta = _np.nan if sum_fB == 0 else (1.0 - alpha * sum_fA - sum_qC) / sum_fB  # beta_fn
-            else:  # fall back to this when len(A) == 0
-                beta = -(sum_qA - sum_qB - 2 * W) / sum_fB if sum_fA == 0 else \
-                    -(sum_qA - sum_qB - 1.0 + sum_qC - 2 * W) / (2 * sum_fB)  # compute_beta
-                alpha = _np.nan if sum_fA == 0 else (1.0 - beta * sum_fB - sum_qC) / sum_fA  # alpha_fn
-
-            #compute_pvec
-            pvec = fvec.copy()
-            pvec[A] = alpha * fvec[A]
-            pvec[B] = beta * fvec[B]
-            pvec[C] = qvec[C]
-            indices_moved_to_C = [x[0] for x in sorted_indices_and_ratios[0:nMovedToC]]
-            pvec[indices_moved_to_C] = qvec[indices_moved_to_C]
             probs_out[elInds] = pvec  # _tools.matrixtools._fas(probs_out, (elInds,), pvec)
 
         return
-- 
2.43.0


From 9daee7f33909f9a0809daa596c4ccc6f41e7ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 084/109] fix: parameter vectors are no longer shared between
 model members and their callers

---
 pygsti/objects/instrument.py |  4 ++--
 pygsti/objects/model.py      |  2 +-
 pygsti/objects/operation.py  | 12 ++++++------
 pygsti/objects/spamvec.py    |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pygsti/objects/instrument.py b/pygsti/objects/instrument.py
index c157b22..4750412 100644
--- a/pygsti/objects/instrument.py
+++ b/pygsti/objects/instrument.py
@@ -238,7 +238,7 @@ class Instrument(_gm.ModelMember, _collections.OrderedDict):
         numpy array
             a 1D numpy array with length == num_params().
         """
-        return self._paramvec
+        return self._paramvec.copy()
 
     def from_vector(self, v, close=False, nodirty=False):
         """
@@ -257,7 +257,7 @@ class Instrument(_gm.ModelMember, _collections.OrderedDict):
         assert(len(v) == self.num_params())
         for gate in self.values():
             gate.from_vector(v[gate.gpindices], close, nodirty)
-        self._paramvec = v
+        self._paramvec = _np.array(v)
 
     def transform(self, S):
         """
diff --git a/pygsti/objects/model.py b/pygsti/objects/model.py
index 1fb0f09..ccda014 100644
--- a/pygsti/objects/model.py
+++ b/pygsti/objects/model.py
@@ -784,7 +784,7 @@ class OpModel(Model):
             The vectorized model parameters.
         """
         self._clean_paramvec()  # will rebuild if needed
-        return self._paramvec
+        return self._paramvec.copy()
 
     def from_vector(self, v):
         """
diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 8ea623e..343d77c 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -1605,7 +1605,7 @@ class LinearlyParamDenseOp(DenseOperator):
         numpy array
             a 1D numpy array with length == num_params().
         """
-        return self.parameterArray
+        return self.parameterArray.copy()
 
     def from_vector(self, v, close=False, nodirty=False):
         """
@@ -2050,7 +2050,7 @@ class EigenvalueParamDenseOp(DenseOperator):
         numpy array
             a 1D numpy array with length == num_params().
         """
-        return self.paramvals
+        return self.paramvals.copy()
 
     def from_vector(self, v, close=False, nodirty=False):
         """
@@ -2067,7 +2067,7 @@ class EigenvalueParamDenseOp(DenseOperator):
         None
         """
         assert(len(v) == self.num_params())
-        self.paramvals = v
+        self.paramvals = _np.array(v)
         self._construct_matrix()
         if not nodirty: self.dirty = True
 
@@ -2363,7 +2363,7 @@ class StochasticNoiseOp(LinearOperator):
         numpy array
             a 1D numpy array with length == num_params().
         """
-        return self.params
+        return self.params.copy()
 
     def from_vector(self, v, close=False, nodirty=False):
         """
@@ -7415,7 +7415,7 @@ class LindbladErrorgen(LinearOperator):
         numpy array
             a 1D numpy array with length == num_params().
         """
-        return self.paramvals
+        return self.paramvals.copy()
 
     def from_vector(self, v, close=False, nodirty=False):
         """
@@ -7432,7 +7432,7 @@ class LindbladErrorgen(LinearOperator):
         None
         """
         assert(len(v) == self.num_params())
-        self.paramvals = v
+        self.paramvals = _np.array(v)
         if self._evotype == "densitymx":
             self._update_rep()
         if not nodirty: self.dirty = True
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 7889d15..7c95323 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1071,7 +1071,7 @@ class FullSPAMVec(DenseSPAMVec):
         if self._evotype == "statevec":
             return _np.concatenate((self.base1D.real, self.base1D.imag), axis=0)
         else:
-            return self.base1D
+            return self.base1D.copy()
 
     def from_vector(self, v, close=False, nodirty=False):
         """
@@ -1564,7 +1564,7 @@ class CPTPSPAMVec(DenseSPAMVec):
         numpy array
             The parameters as a 1D array with length num_params().
         """
-        return self.params
+        return self.params.copy()
 
     def from_vector(self, v, close=False, nodirty=False):
         """
-- 
2.43.0


From 531d489e7036abf97c5f5721d01ec779cceddd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 085/109] fix: ComposedErrorgen.append and remove rebuild its
 representation

---
 pygsti/objects/operation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 343d77c..7af30f6 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5574,6 +5574,10 @@ class ComposedErrorgen(LinearOperator):
         #Create representation object
         factor_reps = [op._rep for op in self.factors]
         if evotype == "densitymx":
+        LinearOperator.__init__(self, self._build_rep(evotype, dim), evotype)
+
+    def _build_rep(self, evotype, dim):
+        """ Build the representation of the sum of this object's factors (just `dim` if there is none) """
             rep = replib.DMOpRep_Sum(factor_reps, dim)
         elif evotype == "statevec":
             rep = replib.SVOpRep_Sum(factor_reps, dim)
@@ -5582,8 +5586,7 @@ class ComposedErrorgen(LinearOperator):
             rep = replib.SBOpRep_Sum(factor_reps, nQubits)
         else:
             rep = dim  # no representations for term-based evotypes
-
-        LinearOperator.__init__(self, rep, evotype)
+        return rep
 
     def get_coeffs(self, return_basis=False, logscale_nonham=False):
         """
@@ -5902,7 +5905,7 @@ class ComposedErrorgen(LinearOperator):
         """
         self.factors.extend(factors_to_add)
         if self._rep is not None:
-            self._rep.reinit_factor_reps([op._rep for op in self.factors])
+            self._rep = self._build_rep(self._evotype, self.dim)
         if self.parent:  # need to alert parent that *number* (not just value)
             self.parent._mark_for_rebuild(self)  # of our params may have changed
 
@@ -5922,7 +5925,7 @@ class ComposedErrorgen(LinearOperator):
         for i in sorted(factor_indices, reverse=True):
             del self.factors[i]
         if self._rep is not None:
-            self._rep.reinit_factor_reps([op._rep for op in self.factors])
+            self._rep = self._build_rep(self._evotype, self.dim)
         if self.parent:  # need to alert parent that *number* (not just value)
             self.parent._mark_for_rebuild(self)  # of our params may have changed
 
-- 
2.43.0


From ee822a41ff1864096f056b52e0b3d7cedbb7e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 086/109] fix: re-parameterizing Lindblad operations and SPAM
 vectors without Hamiltonian terms a second time

---
 pygsti/objects/operation.py |  2 ++
 pygsti/objects/spamvec.py   | 14 +++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 7af30f6..3383a45 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2603,6 +2603,8 @@ class LindbladOp(LinearOperator):
 
         def beq(b1, b2):
             """ Check if bases have equal names """
+            if b1 is None or b2 is None:  # e.g. no Hamiltonian terms (either None or an empty basis)
+                return all([(b is None or (isinstance(b, _Basis) and len(b) == 0)) for b in (b1, b2)])
             if not isinstance(b1, _Basis):  # b1 may be a string, in which case create a Basis
                 b1 = _BuiltinBasis(b1, b2.dim, b2.sparse)  # from b2, which *will* be a Basis
             return b1 == b2
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 7c95323..796ba94 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2527,11 +2527,13 @@ class LindbladSPAMVec(SPAMVec):
             if a is None or b is None: return False
             return _mt.safenorm(a - b) < 1e-6  # what about possibility of Clifford gates?
 
-        if isinstance(spamvec, LindbladSPAMVec) \
-           and spamvec._evotype == evotype and spamvec.typ == typ \
-           and beq(ham_basis, spamvec.error_map.ham_basis) and beq(nonham_basis, spamvec.error_map.other_basis) \
-           and param_mode == spamvec.error_map.param_mode and nonham_mode == spamvec.error_map.nonham_mode \
-           and beq(mxBasis, spamvec.error_map.matrix_basis) and lazy:
+        from .operation import LindbladErrorgen as _LErrorgen
+        errgen = getattr(spamvec.error_map, 'errorgen', None) if isinstance(spamvec, LindbladSPAMVec) else None
+        if isinstance(errgen, _LErrorgen) \
+           and spamvec._evotype == evotype and spamvec._prep_or_effect == typ \
+           and beq(ham_basis, errgen.ham_basis) and beq(nonham_basis, errgen.other_basis) \
+           and param_mode == errgen.param_mode and nonham_mode == errgen.nonham_mode \
+           and beq(mxBasis, errgen.matrix_basis) and lazy:
             #normeq(gate.pure_state_vec,purevec) \ # TODO: more checks for equality?!
             return spamvec  # no creation necessary!
         else:
@@ -2637,6 +2639,8 @@ class LindbladSPAMVec(SPAMVec):
             elif not isinstance(ham_basis, str) and len(ham_basis) > 0:
                 sparse = _sps.issparse(ham_basis[0])
         if sparse is None and nonham_basis is not None:
+            if any([(b is None or (isinstance(b, _Basis) and len(b) == 0)) for b in (b1, b2)]):  # e.g. no Ham. terms
+                return all([(b is None or (isinstance(b, _Basis) and len(b) == 0)) for b in (b1, b2)])
             if isinstance(nonham_basis, _Basis): sparse = nonham_basis.sparse
             elif not isinstance(nonham_basis, str) and len(nonham_basis) > 0:
                 sparse = _sps.issparse(nonham_basis[0])
-- 
2.43.0


From c96a8c9731c3b09bb78a13497042a205516aa073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 087/109] fix: marginalized and Lindblad POVM effects follow
 their model's parameters

---
 pygsti/objects/povm.py    |  20 +++++--
 pygsti/objects/spamvec.py | 118 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 134 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index eda86be..b983b48 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1089,8 +1089,14 @@ class LindbladPOVM(POVM):
         num_new_params = self.error_map.allocate_gpindices(startingIndex, parent, memo)  # *same* parent as this SPAMVec
         _gm.ModelMember.set_gpindices(
             self, self.error_map.gpindices, parent)
+        self._update_effect_gpindices()
         return num_new_params
 
+    def _update_effect_gpindices(self):
+        """ Give the already-created effects, which share our error map, its parameter indices """
+        for effect in _collections.OrderedDict.values(self):
+            effect._set_only_my_gpindices(self.error_map.gpindices, self.error_map.parent)
+
     def submembers(self):
         """
         Get the ModelMember-derived objects contained in this one.
@@ -1139,6 +1145,7 @@ class LindbladPOVM(POVM):
         self.error_map.set_gpindices(gpindices, parent, memo)
         self.terms = {}  # clear terms cache since param indices have changed now
         _gm.ModelMember._set_only_my_gpindices(self, gpindices, parent)
+        self._update_effect_gpindices()
 
     def simplify_effects(self, prefix=""):
         """
@@ -1295,10 +1302,15 @@ class MarginalizedPOVM(POVM):
             return _collections.OrderedDict.__getitem__(self, key)
         elif key in self:  # calls __contains__ to efficiently check for membership
             #create effect vector now that it's been requested (lazy creation)
-            #FUTURE: maybe have a "SumSPAMVec" that can add spamvecs to preserve paramterization and avoid dense reps
-            effect_vec = None  # Note: currently all marginalized POVMs are *static*, since
-            # we don't have a good general way to add parameterized effect vectors.
-
+            if self._evotype == "densitymx":
+                effects = self.povm_to_marginalize.simplify_effects()
+                to_sum = [effects[k] for k in self._elements_to_sum[key]]
+                first = next(iter(effects.values()))  # (the first effect initializes a tensor product's factors)
+                effect = _sv.SummedSPAMVec(to_sum, 'effect', to_sum if (first is to_sum[0]) else [first] + to_sum)
+                _collections.OrderedDict.__setitem__(self, key, effect)
+                return effect
+
+            effect_vec = None  # Note: marginalized POVMs of other evolution types are *static*
             for k in self._elements_to_sum[key]:
                 e = self.povm_to_marginalize[k]
                 if effect_vec is None:
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 796ba94..022385d 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1393,6 +1393,124 @@ class ComplementSPAMVec(DenseSPAMVec):
         return False
 
 
+class SummedSPAMVec(DenseSPAMVec):
+    """
+    Encapsulates a SPAM vector that is the sum of other (parameterized) SPAM
+    vectors, e.g. an effect of a marginalized POVM.
+    """
+
+    def __init__(self, vecs_to_sum, typ="effect", vecs_to_init=None):
+        """
+        Initialize a SummedSPAMVec object.
+
+        Parameters
+        ----------
+        vecs_to_sum : list of SPAMVecs
+            The vectors to sum.  Their gpindices (when they have any) locate
+            their parameters within the vector of a common parent.
+
+        typ : {"prep", "effect"}
+            whether this is a state preparation or an effect (measurement)
+            SPAM vector.
+
+        vecs_to_init : list of SPAMVecs, optional
+            The vectors to initialize, in order, when the parameters change,
+            if these aren't just `vecs_to_sum`.
+        """
+        self.vecs = vecs_to_sum
+        self.vecs_to_init = vecs_to_sum if (vecs_to_init is None) else vecs_to_init
+        DenseSPAMVec.__init__(self, self._sum(), "densitymx", typ)
+        inds = sorted(set(_itertools.chain(*[v.gpindices_as_array() for v in self.vecs_to_init])))
+        self.set_gpindices(_slct.list_to_slice(inds, array_ok=True, require_contiguous=True), self.vecs[0].parent)
+
+    def _sum(self):
+        return _np.sum([v.todense().ravel() for v in self.vecs], axis=0)
+
+    def _local_inds(self, vec):
+        return _modelmember._decompose_gpindices(self.gpindices_as_array(), vec.gpindices_as_array())
+
+    def num_params(self):
+        """
+        Get the number of independent parameters which specify this SPAM vector.
+
+        Returns
+        -------
+        int
+            the number of independent parameters.
+        """
+        return len(self.gpindices_as_array())
+
+    def to_vector(self):
+        """
+        Get the SPAM vector parameters as an array of values.
+        """
+        raise ValueError("SummedSPAMVec.to_vector() should never be called - use its parent's to_vector() instead")
+
+    def from_vector(self, v, close=False, nodirty=False):
+        """
+        Initialize this SPAM vector using a vector of its parameters.
+
+        Parameters
+        ----------
+        v : numpy array
+            The 1D vector of parameters.
+
+        Returns
+        -------
+        None
+        """
+        for vec in self.vecs_to_init:
+            vec.from_vector(v[self._local_inds(vec)], close, nodirty)
+        self.base1D[:] = self._sum()
+        if not nodirty: self.dirty = True
+
+    def deriv_wrt_params(self, wrtFilter=None):
+        """
+        Construct a matrix whose columns are the derivatives of the SPAM vector
+        with respect to a single param.
+
+        Returns
+        -------
+        numpy array
+            Array of derivatives, shape == (dimension, num_params)
+        """
+        derivMx = _np.zeros((self.dim, self.num_params()), 'd')
+        for vec in self.vecs:
+            if len(vec.gpindices_as_array()) > 0:
+                derivMx[:, self._local_inds(vec)] += vec.deriv_wrt_params()
+        return derivMx if (wrtFilter is None) else _np.take(derivMx, wrtFilter, axis=1)
+
+    def has_nonzero_hessian(self):
+        """
+        Returns whether this SPAM vector has a non-zero Hessian with
+        respect to its parameters.
+
+        Returns
+        -------
+        bool
+        """
+        return any([vec.has_nonzero_hessian() for vec in self.vecs])
+
+    def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
+        """
+        Construct the Hessian of this SPAM vector with respect to its parameters.
+
+        Returns
+        -------
+        numpy array
+            Hessian with shape (dimension, num_params1, num_params2)
+        """
+        Np = self.num_params()
+        hess = _np.zeros((self.dim, Np, Np), 'd')
+        for vec in self.vecs:
+            if vec.has_nonzero_hessian() and len(vec.gpindices_as_array()) > 0:
+                inds = self._local_inds(vec)
+                hess[_np.ix_(range(self.dim), inds, inds)] += vec.hessian_wrt_params()
+        if wrtFilter1 is not None: hess = _np.take(hess, wrtFilter1, axis=1)
+        if wrtFilter2 is not None: hess = _np.take(hess, wrtFilter2, axis=2)
+        return hess
+
+
 class CPTPSPAMVec(DenseSPAMVec):
     """
     Encapsulates a SPAM vector that is parameterized through the Cholesky
-- 
2.43.0


From 0221f83e4651bb1a0a3f4f950fdc95e917578511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 088/109] fix: crosstalk-free models with shared gates no
 longer repeat one SPAM factor object

---
 pygsti/construction/modelconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/construction/modelconstruction.py b/pygsti/construction/modelconstruction.py
index 1f6d3ec..b25ed65 100644
--- a/pygsti/construction/modelconstruction.py
+++ b/pygsti/construction/modelconstruction.py
@@ -1139,7 +1139,7 @@ def build_crosstalk_free_model(nQubits, gate_names, error_rates, nonstd_gate_uni
         assert(isinstance(error_rates['prep'], (dict, float))), "error_rates['prep'] can only be a dict or float!"
         rho_base1Q = _spamvec.ComputationalSPAMVec([0], evotype, 'prep')
         prep1Q = _spamvec.LindbladSPAMVec(rho_base1Q, create_gate('prep', _np.identity(4)), 'prep')
-        prep_factors = [prep1Q.copy() for i in range(nQubits)] if independent_gates else [prep1Q] * nQubits
+        prep_factors = [prep1Q.copy() for i in range(nQubits)]  # (factors own separate parameters)
         prep_layers['rho0'] = _spamvec.TensorProdSPAMVec('prep', prep_factors)
     else:
         prep_layers['rho0'] = _spamvec.ComputationalSPAMVec([0] * nQubits, evotype, 'prep')
@@ -1149,7 +1149,7 @@ def build_crosstalk_free_model(nQubits, gate_names, error_rates, nonstd_gate_uni
         assert(isinstance(error_rates['povm'], (dict, float))), "error_rates['povm'] can only be a dict or float!"
         Mdefault_base1Q = _povm.ComputationalBasisPOVM(1, evotype)
         povm1Q = _povm.LindbladPOVM(create_gate('povm', _np.identity(4)), Mdefault_base1Q, "pp")
-        povm_factors = [povm1Q.copy() for i in range(nQubits)] if independent_gates else [povm1Q] * nQubits
+        povm_factors = [povm1Q.copy() for i in range(nQubits)]  # (factors own separate parameters)
         povm_layers['Mdefault'] = _povm.TensorProdPOVM(povm_factors)
     else:
         povm_layers['Mdefault'] = _povm.ComputationalBasisPOVM(nQubits, evotype)
-- 
2.43.0


From 524f4d4c4f4d8c09fd9f6e14b390608530fae4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 089/109] fix: stale dirty flags, cached operations and indices
 after a model's members change

---
 pygsti/objects/model.py     | 31 +++++++++++++++++++++----------
 pygsti/objects/operation.py |  6 +++---
 pygsti/objects/spamvec.py   |  7 ++++---
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/pygsti/objects/model.py b/pygsti/objects/model.py
index ccda014..7f414da 100644
--- a/pygsti/objects/model.py
+++ b/pygsti/objects/model.py
@@ -611,10 +611,6 @@ class OpModel(Model):
                     clean_obj(subm, _Label(lbl.name + ":%d" % i, lbl.sslbls))
                 clean_single_obj(obj, lbl)
 
-            def reset_dirty(obj):  # recursive so works with objects that have sub-members
-                for i, subm in enumerate(obj.submembers()): reset_dirty(subm)
-                obj.dirty = False
-
             for lbl, obj in self._iter_parameterized_objs():
                 clean_obj(obj, lbl)
 
@@ -622,20 +618,33 @@ class OpModel(Model):
             #print("DEBUG: non-trivially CLEANED paramvec due to dirty elements")
             for _, obj in self._iter_parameterized_objs():
                 obj.from_vector(self._paramvec[obj.gpindices], nodirty=True)
-                reset_dirty(obj)  # like "obj.dirty = False" but recursive
+                self._reset_dirty(obj)  # like "obj.dirty = False" but recursive
                 #object is known to be consistent with _paramvec
 
             self.dirty = False
 
         if OpModel._pcheck: self._check_paramvec()
 
+    def _reset_dirty(self, obj):
+        """ Mark `obj` and everything it contains as consistent with this model's parameter vector """
+        for subm in obj.submembers(): self._reset_dirty(subm)
+        obj.dirty = False
+
     def _mark_for_rebuild(self, modified_obj=None):
         #re-initialze any members that also depend on the updated parameters
         self._need_to_rebuild = True
-        for _, o in self._iter_parameterized_objs():
-            if o._obj_refcount(modified_obj) > 0:
+
+        def part_ids(o): return {id(o)}.union(*[part_ids(subm) for subm in o.submembers()])
+
+        remaining = [(o, part_ids(o)) for _, o in self._iter_parameterized_objs()]
+        cleared = {id(modified_obj)}; done = False
+        while not done:  # clearing a shared part affects all the other members containing it too
+            affected = [(o, ids) for o, ids in remaining if not cleared.isdisjoint(ids)]
+            remaining = [(o, ids) for o, ids in remaining if cleared.isdisjoint(ids)]
+            done = len(affected) == 0
+            for o, ids in affected:
                 o.clear_gpindices()  # ~ o.gpindices = None but works w/submembers
-                # (so params for this obj will be rebuilt)
+                cleared.update(ids)  # (so params for this obj will be rebuilt)
         self.dirty = True
         #since it's likely we'll set at least one of our object's .dirty flags
         # to True (and said object may have parent=None and so won't
@@ -746,6 +755,7 @@ class OpModel(Model):
                     off = max(off, M + 1)
 
         self._paramvec = v
+        self._opcache = {}  # cached operations may hold old members or parameter indices
         #print("DEBUG: Done rebuild: %d params" % len(v))
 
     def _init_virtual_obj(self, obj):
@@ -799,8 +809,9 @@ class OpModel(Model):
 
         self._paramvec = v.copy()
         for _, obj in self._iter_parameterized_objs():
-            obj.from_vector(v[obj.gpindices])
-            obj.dirty = False  # object is known to be consistent with _paramvec
+            obj.from_vector(v[obj.gpindices], nodirty=True)
+            self._reset_dirty(obj)  # object is known to be consistent with _paramvec
+        self.dirty = False
 
         #if reset_basis:
         #    self.reset_basis()
diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 3383a45..1fffacd 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4478,7 +4478,7 @@ class ComposedOp(LinearOperator):
                 self.gpindices, gate.gpindices)
             gate.from_vector(v[factorgate_local_inds], close, nodirty)
         if self.dense_rep: self._update_denserep()
-        self.dirty = True
+        if not nodirty: self.dirty = True
 
     def deriv_wrt_params(self, wrtFilter=None):
         """
@@ -5574,12 +5574,12 @@ class ComposedErrorgen(LinearOperator):
             "All error generators must have the same matrix basis (%s expected)!" % self.matrix_basis
 
         #Create representation object
-        factor_reps = [op._rep for op in self.factors]
-        if evotype == "densitymx":
         LinearOperator.__init__(self, self._build_rep(evotype, dim), evotype)
 
     def _build_rep(self, evotype, dim):
         """ Build the representation of the sum of this object's factors (just `dim` if there is none) """
+        factor_reps = [op._rep for op in self.factors]
+        if evotype == "densitymx":
             rep = replib.DMOpRep_Sum(factor_reps, dim)
         elif evotype == "statevec":
             rep = replib.SVOpRep_Sum(factor_reps, dim)
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 022385d..c7435f3 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1213,7 +1213,7 @@ class TPSPAMVec(DenseSPAMVec):
         numpy array
             The parameters as a 1D array with length num_params().
         """
-        return self.base1D[1:]  # .real in case of complex matrices?
+        return self.base1D[1:].copy()  # .real in case of complex matrices?
 
     def from_vector(self, v, close=False, nodirty=False):
         """
@@ -2225,6 +2225,7 @@ class TensorProdSPAMVec(SPAMVec):
         #Update representation, which may be a dense matrix or
         # just fast-kron arrays or a stabilizer state.
         self._update_rep()
+        if self._prep_or_effect == "prep" and not nodirty: self.dirty = True
 
     def deriv_wrt_params(self, wrtFilter=None):
         """
@@ -2636,6 +2637,8 @@ class LindbladSPAMVec(SPAMVec):
 
         def beq(b1, b2):
             """ Check if bases have equal names """
+            if any([(b is None or (isinstance(b, _Basis) and len(b) == 0)) for b in (b1, b2)]):  # e.g. no Ham. terms
+                return all([(b is None or (isinstance(b, _Basis) and len(b) == 0)) for b in (b1, b2)])
             b1 = b1.name if isinstance(b1, _Basis) else b1
             b2 = b2.name if isinstance(b2, _Basis) else b2
             return b1 == b2
@@ -2757,8 +2760,6 @@ class LindbladSPAMVec(SPAMVec):
             elif not isinstance(ham_basis, str) and len(ham_basis) > 0:
                 sparse = _sps.issparse(ham_basis[0])
         if sparse is None and nonham_basis is not None:
-            if any([(b is None or (isinstance(b, _Basis) and len(b) == 0)) for b in (b1, b2)]):  # e.g. no Ham. terms
-                return all([(b is None or (isinstance(b, _Basis) and len(b) == 0)) for b in (b1, b2)])
             if isinstance(nonham_basis, _Basis): sparse = nonham_basis.sparse
             elif not isinstance(nonham_basis, str) and len(nonham_basis) > 0:
                 sparse = _sps.issparse(nonham_basis[0])
-- 
2.43.0


From d119c03ace86c83b3a236fdff49254cf0a1756a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 090/109] fix: contracting operations on more than one qubit to
 CPTP

---
 pygsti/algorithms/contract.py | 72 +++++++++++++++++------------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/pygsti/algorithms/contract.py b/pygsti/algorithms/contract.py
index a4223fe..c2808ae 100644
--- a/pygsti/algorithms/contract.py
+++ b/pygsti/algorithms/contract.py
@@ -240,44 +240,40 @@ def _contractToCP_direct(model, verbosity, TPalso=False, maxiter=100000, tol=1e-
 
             new_Jmx = _np.dot(evecs, _np.dot(_np.diag(new_evals), _np.linalg.inv(evecs)))
 
-            #Make trace preserving by zeroing out real parts of off diagonal blocks and imaginary parts
-            #  within diagaonal 1x1 and 3x3 block (so really just the 3x3 block's off diag elements)
-            #assert(new_Jmx.shape == (4,4)) #NOTE: only works for 1-qubit case so far
-            kmax = new_Jmx.shape[0]
-            for k in range(1, kmax):
-                new_Jmx[0, k] = 1j * new_Jmx[0, k].imag
-                new_Jmx[k, 0] = 1j * new_Jmx[k, 0].imag
-            for i in range(1, kmax):
-                for j in range(1, kmax):
-                    new_Jmx[i, j] = new_Jmx[i, j].real
-
-            evals, evecs = _np.linalg.eig(new_Jmx)
-
-            #DEBUG
-            #EVAL_TOL = 1e-10
-            #if abs( sum(evals) - 1.0 ) >= 1e-8:
-            #  print "DEBUG2: sum(evals) == ",sum(evals)
-            #  print "DEBUG2: evals == ",evals
-            #if min(evals) < -EVAL_TOL:
-            #  print "DEBUG3: evals = ",evals
-
-            # Check that trace-trunc above didn't mess up positivity
-            assert(min(evals) >= -1e-10 and abs(sum(evals) - 1.0) < 1e-8)
-
-            new_op = _tools.jamiolkowski_iso_inv(new_Jmx, opMxBasis=mdl.basis, choiMxBasis="gm")
-
-            # # Old way of enforcing TP -- new way should be better since it's not iterative, but keep this around just
-            # # in case.
-            #  new_op = _tools.jamiolkowski_iso_inv(new_Jmx)
-            #
-            #  if(TPalso):
-            #    for k in range(new_op.shape[1]):
-            #      #if k == 0: assert( abs(new_op[0,k] - 1.0) < 1e-8 )
-            #      #else: assert( abs(new_op[0,k]) < 1e-8 )
-            #      new_op[0,k] = 1.0 if k == 0 else 0.0
-            #
-            #  new_Jmx = _tools.jamiolkowski_iso(new_op)
-            #  evals,evecs = _np.linalg.eig(new_Jmx)
+            if new_Jmx.shape == (4, 4):
+                #Make trace preserving by zeroing out real parts of off diagonal blocks and imaginary parts
+                #  within diagaonal 1x1 and 3x3 block (so really just the 3x3 block's off diag elements)
+                #NOTE: only works for 1-qubit case so far
+                kmax = new_Jmx.shape[0]
+                for k in range(1, kmax):
+                    new_Jmx[0, k] = 1j * new_Jmx[0, k].imag
+                    new_Jmx[k, 0] = 1j * new_Jmx[k, 0].imag
+                for i in range(1, kmax):
+                    for j in range(1, kmax):
+                        new_Jmx[i, j] = new_Jmx[i, j].real
+
+                evals, evecs = _np.linalg.eig(new_Jmx)
+
+                #DEBUG
+                #EVAL_TOL = 1e-10
+                #if abs( sum(evals) - 1.0 ) >= 1e-8:
+                #  print "DEBUG2: sum(evals) == ",sum(evals)
+                #  print "DEBUG2: evals == ",evals
+                #if min(evals) < -EVAL_TOL:
+                #  print "DEBUG3: evals = ",evals
+
+                # Check that trace-trunc above didn't mess up positivity
+                assert(min(evals) >= -1e-10 and abs(sum(evals) - 1.0) < 1e-8)
+
+                new_op = _tools.jamiolkowski_iso_inv(new_Jmx, opMxBasis=mdl.basis, choiMxBasis="gm")
+
+            else:
+                # Alternate between the positive and the trace preserving maps (iterative, but works for any dimension)
+                new_op = _tools.jamiolkowski_iso_inv(new_Jmx, opMxBasis=mdl.basis, choiMxBasis="gm")
+                if TPalso:
+                    for k in range(new_op.shape[1]): new_op[0, k] = 1.0 if k == 0 else 0.0
+                new_Jmx = _tools.jamiolkowski_iso(new_op, opMxBasis=mdl.basis, choiMxBasis="gm")
+                evals, evecs = _np.linalg.eig(new_Jmx)
 
             it += 1
             if it > maxiter: break
-- 
2.43.0


From 7f1aec665a1af2ac7c70739c3fa1b3e9f5dced43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 091/109] fix: constrained eigenvalue parameterizations froze
 the wrong eigenvalue (sign of the TP eigenvector)

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 1fffacd..fb56908 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -1842,7 +1842,7 @@ class EigenvalueParamDenseOp(DenseOperator):
 
             #find the eigenvector with largest first element and make sure
             # this is the first index in unitInds
-            k = _np.argmax([B[0, i] for i in unitInds])
+            k = _np.argmax([abs(B[0, i]) for i in unitInds])
             if k != 0:  # swap indices 0 <-> k in unitInds
                 t = unitInds[0]; unitInds[0] = unitInds[k]; unitInds[k] = t
 
-- 
2.43.0


From 8f23b2c2574d562c8a2edeb1684eeb603ebfe8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 092/109] fix: random measurement noise of models with
 different numbers of preparations and measurements

---
 pygsti/objects/explicitmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/explicitmodel.py b/pygsti/objects/explicitmodel.py
index b57ebe4..645c3f8 100644
--- a/pygsti/objects/explicitmodel.py
+++ b/pygsti/objects/explicitmodel.py
@@ -1293,7 +1293,7 @@ class ExplicitOpModel(_mdl.OpModel):
             for (i, lbl) in enumerate(self.preps):
                 newModel.preps[lbl].depolarize(r[i])
             r = max_spam_noise * rndm.random_sample(len(self.povms))
-            for label in self.povms:
+            for (i, label) in enumerate(self.povms):
                 newModel.povms[label].depolarize(r[i])
 
         elif spam_noise is not None:
-- 
2.43.0


From cba9a880f3e988389cdf522259a44ea5817408f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 093/109] fix: gauge transformations of Lindblad-parameterized
 preparations and measurements

---
 pygsti/objects/povm.py    |  9 +++++++--
 pygsti/objects/spamvec.py | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index b983b48..10fde81 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1225,8 +1225,13 @@ class LindbladPOVM(POVM):
             A gauge group element which specifies the "S" matrix
             (and it's inverse) used in the above similarity transform.
         """
-        for lbl, effect in self.items():
-            effect.transform(S, 'effect')
+        # Use that E^T * error_map * S == (E^T * S) * (inv(S) * error_map * S)
+        ST = _np.transpose(S.get_transform_matrix())
+        self.base_povm = UnconstrainedPOVM(_collections.OrderedDict(
+            [(lbl, _sv.StaticSPAMVec(_np.dot(ST, effect.todense()), self._evotype, 'effect'))
+             for lbl, effect in self.base_povm.items()]))
+        self.error_map.transform(S)  # (once, as it's shared by all the effects)
+        _collections.OrderedDict.clear(self)  # effects are (lazily) created again
         self.dirty = True
 
     def __str__(self):
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index c7435f3..780a7a9 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -3288,14 +3288,21 @@ class LindbladSPAMVec(SPAMVec):
         typ : { 'prep', 'effect' }
             Which type of SPAM vector is being transformed (see above).
         """
-        #Defer everything to LindbladOp's
-        # `spam_tranform` function, which applies either
-        # error_map -> inv(S) * error_map ("prep" case) OR
-        # error_map -> error_map * S      ("effect" case)
-        self.error_map.spam_transform(S, typ)
-        self._update_rep()
+        # Use that inv(S) * error_map * state_vec == (inv(S) * error_map * S) * (inv(S) * state_vec)
+        # and similarly for effects, where the error map needs to be transformed as operations are.
+        self.error_map.transform(S)
+        self._transform_state_vec(S, typ)
         self.dirty = True
 
+    def _transform_state_vec(self, S, typ):
+        """ Transform the static vector that the (already transformed) error map acts on """
+        mx = S.get_transform_matrix_inverse() if typ == 'prep' else _np.transpose(S.get_transform_matrix())
+        self.state_vec = StaticSPAMVec(_np.dot(mx, self.state_vec.todense()), self._evotype, typ)
+        if typ == 'effect':  # the effect's rep refers to the reps of state_vec and error_map
+            self._rep = replib.DMEffectRep_Errgen(self.error_map._rep, self.state_vec._rep, id(self.error_map))
+        else:
+            self._update_rep()
+
     def depolarize(self, amount):
         """
         Depolarize this SPAM vector by the given `amount`.
-- 
2.43.0


From 22f5de9e1761b5cb70f8ba411c8be9dd9ebab410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 094/109] fix: counting gauge parameters of models without any

---
 pygsti/objects/explicitmodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/explicitmodel.py b/pygsti/objects/explicitmodel.py
index 645c3f8..221faba 100644
--- a/pygsti/objects/explicitmodel.py
+++ b/pygsti/objects/explicitmodel.py
@@ -586,6 +586,7 @@ class ExplicitOpModel(_mdl.OpModel):
             return 0  # punt on computing number of gauge parameters for other evotypes
         dPG = self._excalc()._buildup_dPG()
         gaugeDirs = _mt.nullspace_qr(dPG)  # cols are gauge directions
+        if gaugeDirs.size == 0: return 0  # there are none
         return _np.linalg.matrix_rank(gaugeDirs[0:self.num_params(), :])
 
     def deriv_wrt_params(self):
-- 
2.43.0


From dfa20241f08fefdf5e894ba23a7526908918beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 095/109] fix: gauge optimization with item weights (Jacobian,
 trace distance) and with the trivial group

---
 pygsti/algorithms/gaugeopt.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pygsti/algorithms/gaugeopt.py b/pygsti/algorithms/gaugeopt.py
index 7a678af..c3193c2 100644
--- a/pygsti/algorithms/gaugeopt.py
+++ b/pygsti/algorithms/gaugeopt.py
@@ -240,13 +240,13 @@ def gaugeopt_custom(model, objective_fn, gauge_group=None,
         if gauge_group is None:
             #don't do any gauge optimization (assume trivial gauge group)
             _warnings.warn("No gauge group specified, so no gauge optimization performed.")
-        if gauge_group is None or gauge_group.num_params() == 0 or \
-           model.num_params() == 0:
-            if returnAll:
-                trivialEl = _objs.TrivialGaugeGroupElement(model.dim)
-                return None, trivialEl, model.copy()
-            else:
-                return model.copy()
+    if gauge_group is None or gauge_group.num_params() == 0 or \
+       model.num_params() == 0:
+        if returnAll:
+            trivialEl = _objs.TrivialGaugeGroupElement(model.dim)
+            return None, trivialEl, model.copy()
+        else:
+            return model.copy()
 
     x0 = gauge_group.get_initial_params()  # gauge group picks a good initial el
     gaugeGroupEl = gauge_group.get_element(x0)  # re-used element for evals
@@ -410,7 +410,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for lbl, G in mdl_pre.operations.items():
                 # d(op_term) = S_inv * (-dS * S_inv * G * S + G * dS) = S_inv * (-dS * G' + G * dS)
                 #   Note: (S_inv * G * S) is G' (transformed G)
-                wt = itemWeights.get(lbl, opWeight)
+                wt = _np.sqrt(itemWeights.get(lbl, opWeight))
                 left = -1 * _np.dot(dS, mdl_post.operations[lbl].todense())  # shape (n,d1,d2)
                 right = _np.swapaxes(_np.dot(G.todense(), dS), 0, 1)  # shape (d1, n, d2) -> (n,d1,d2)
                 result = _np.swapaxes(_np.dot(S_inv, left + right), 1, 2)  # shape (d1, d2, n)
@@ -421,7 +421,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             # -- Instrument terms
             # -------------------------
             for ilbl, Inst in mdl_pre.instruments.items():
-                wt = itemWeights.get(ilbl, opWeight)
+                wt = _np.sqrt(itemWeights.get(ilbl, opWeight))
                 for lbl, G in Inst.items():
                     # same calculation as for operation terms
                     left = -1 * _np.dot(dS, mdl_post.instruments[ilbl][lbl].todense())  # shape (n,d1,d2)
@@ -436,7 +436,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for lbl, rho in mdl_post.preps.items():
                 # d(rho_term) = -(S_inv * dS * S_inv) * rho
                 #   Note: (S_inv * rho) is transformed rho
-                wt = itemWeights.get(lbl, spamWeight)
+                wt = _np.sqrt(itemWeights.get(lbl, spamWeight))
                 Sinv_dS = _np.dot(S_inv, dS)  # shape (d1,n,d2)
                 result = -1 * _np.dot(Sinv_dS, rho.todense())  # shape (d,n)
                 my_jacMx[start:start + d] = wt * result
@@ -447,7 +447,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for povmlbl, povm in mdl_pre.povms.items():
                 for lbl, E in povm.items():
                     # d(ET_term) = E.T * dS
-                    wt = itemWeights.get(povmlbl + "_" + lbl, spamWeight)
+                    wt = _np.sqrt(itemWeights.get(povmlbl + "_" + lbl, spamWeight))
                     result = _np.dot(E.todense()[None, :], dS).T  # shape (1,n,d2).T => (d2,n,1)
                     my_jacMx[start:start + d] = wt * result.squeeze(2)  # (d2,n)
                     start += d
@@ -519,7 +519,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
                 elif gatesMetric == "tracedist":
                     for opLbl in mdl.operations:
                         wt = itemWeights.get(opLbl, opWeight)
-                        ret += opWeight * _tools.jtracedist(
+                        ret += wt * _tools.jtracedist(
                             targetModel.operations[opLbl], mdl.operations[opLbl])
 
                 else: raise ValueError("Invalid gatesMetric: %s" % gatesMetric)
-- 
2.43.0


From e2810737a5a5019084266d451f64c6aefbf69b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 096/109] fix: gauge optimization with fidelity or
 trace-distance metrics of Lindblad preparations

---
 pygsti/algorithms/gaugeopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/algorithms/gaugeopt.py b/pygsti/algorithms/gaugeopt.py
index c3193c2..70f526a 100644
--- a/pygsti/algorithms/gaugeopt.py
+++ b/pygsti/algorithms/gaugeopt.py
@@ -530,9 +530,9 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
                 elif spamMetric == "fidelity":
                     for preplabel, prep in mdl.preps.items():
                         wt = itemWeights.get(preplabel, spamWeight)
-                        rhoMx1 = _tools.vec_to_stdmx(prep, mxBasis)
+                        rhoMx1 = _tools.vec_to_stdmx(prep.todense(), mxBasis)
                         rhoMx2 = _tools.vec_to_stdmx(
-                            targetModel.preps[preplabel], mxBasis)
+                            targetModel.preps[preplabel].todense(), mxBasis)
                         ret += wt * (1.0 - _tools.fidelity(rhoMx1, rhoMx2))**2
 
                     for povmlabel, povm in mdl.povms.items():
@@ -543,9 +543,9 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
                 elif spamMetric == "tracedist":
                     for preplabel, prep in mdl.preps.items():
                         wt = itemWeights.get(preplabel, spamWeight)
-                        rhoMx1 = _tools.vec_to_stdmx(prep, mxBasis)
+                        rhoMx1 = _tools.vec_to_stdmx(prep.todense(), mxBasis)
                         rhoMx2 = _tools.vec_to_stdmx(
-                            targetModel.preps[preplabel], mxBasis)
+                            targetModel.preps[preplabel].todense(), mxBasis)
                         ret += wt * _tools.tracedist(rhoMx1, rhoMx2)
 
                     for povmlabel, povm in mdl.povms.items():
-- 
2.43.0


From 6fdb99ded7a7f4167a9c2852bc561df08f284ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 097/109] fix: compiled embedded/composed/sparse kernels
 (direct sums, empty compositions, adjoints, embedded Cliffords) and their
 Python twins

---
 pygsti/objects/replib/fastreps.cpp  | 46 ++++++++++++++++++++++-------
 pygsti/objects/replib/slowreplib.py |  6 ++--
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index f294edb..49a43c8 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -429,8 +429,8 @@ namespace CReps {
 	if(i != _iActiveBlock) {
 	  for(j=0; j<_blocksizes[i]; j++) // identity op on this block
 	    outstate_data[offset+j] = state_data[offset+j];
-	  offset += _blocksizes[i];
 	}
+	offset += _blocksizes[i];
       }
     }
 
@@ -500,6 +500,12 @@ namespace CReps {
     DMStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     DMStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Note: same as acton(...) but reverse order of gates and perform adjoint_acton
     //Act with last gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
@@ -776,9 +782,17 @@ namespace CReps {
   }
 
   DMStateCRep* DMOpCRep_Sparse::adjoint_acton(DMStateCRep* state, DMStateCRep* out_state) {
-    //Need to take transpose of a CSR matrix then mult by vector...
-    assert(false); //ajoint_acton not implemented yet for Sparse gates (TODO LATER)
-    return NULL; //to avoid compiler warning
+    // transpose of a CSR matrix times a vector: out_state = A.T * state
+    int r,k;
+    INT N = _dim; // = length(_A_indptr)-1
+    double* indata = state->_dataptr;
+    double* outdata = out_state->_dataptr;
+    for(r=0; r<N; r++) outdata[r] = 0;
+    for(r=0; r<N; r++) {
+      for(k=_A_indptr[r]; k<_A_indptr[r+1]; k++)
+	outdata[ _A_indices[k] ] += _A_data[k] * indata[r];
+    }
+    return out_state;
   }
 
   
@@ -1101,8 +1115,8 @@ namespace CReps {
 	if(i != _iActiveBlock) {
 	  for(j=0; j<_blocksizes[i]; j++) // identity op on this block
 	    outstate_data[offset+j] = state_data[offset+j];
-	  offset += _blocksizes[i];
 	}
+	offset += _blocksizes[i];
       }
     }
 
@@ -1165,8 +1179,8 @@ namespace CReps {
 	if(i != _iActiveBlock) {
 	  for(j=0; j<_blocksizes[i]; j++) // identity op on this block
 	    outstate_data[offset+j] = state_data[offset+j];
-	  offset += _blocksizes[i];
 	}
+	offset += _blocksizes[i];
       }
     }
 
@@ -1236,6 +1250,12 @@ namespace CReps {
     SVStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     SVStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Note: same as acton(...) but reverse order of gates and perform adjoint_acton
     //Act with last gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
@@ -2256,7 +2276,7 @@ namespace CReps {
     _factor_gate_creps[0]->acton(state, tmp1);
     
     if(nfactors > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(std::size_t i=1; i < nfactors; i++) {
@@ -2279,11 +2299,17 @@ namespace CReps {
     SBStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     SBStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Act with first gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
 
     if(nfactors > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=nfactors-2; i >= 0; i--) {
@@ -2352,7 +2378,7 @@ namespace CReps {
     _exponentiated_gate_crep->acton(state, tmp1);
     
     if(_power > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=1; i < _power; i++) {
@@ -2388,7 +2414,7 @@ namespace CReps {
     _exponentiated_gate_crep->adjoint_acton(state, tmp1);
     
     if(_power > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=1; i < _power; i++) {
diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index 50a67f7..c925596 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -755,7 +755,7 @@ class SVOpRep_Embedded(SVOpRep):
         super(SVOpRep_Embedded, self).__init__(dim)
 
     def __reduce__(self):
-        return (DMOpRep_Embedded, (self.embedded,
+        return (SVOpRep_Embedded, (self.embedded,
                                    self.numBasisEls, self.actionInds,
                                    self.blocksizes, self.embeddedDim,
                                    self.nComponents, self.iActiveBlock,
@@ -817,7 +817,7 @@ class SVOpRep_Composed(SVOpRep):
     # exactly the same as DM case
     def __init__(self, factor_op_reps, dim):
         #assert(len(factor_op_reps) > 0), "Composed gates must contain at least one factor gate!"
-        self.factors_reps = factor_op_reps
+        self.factor_reps = factor_op_reps
         super(SVOpRep_Composed, self).__init__(dim)
 
     def __reduce__(self):
@@ -836,7 +836,7 @@ class SVOpRep_Composed(SVOpRep):
         return state
 
     def reinit_factor_op_reps(self, new_factor_op_reps):
-        self.factors_reps = new_factor_op_reps
+        self.factor_reps = new_factor_op_reps
 
 
 class SVOpRep_Sum(SVOpRep):
-- 
2.43.0


From 33137904d8b3868c4e0f2fd58e21e773a290311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 098/109] fix: sparse Lindblad generators without Hamiltonian
 terms, rates with a basis, and effects of updated product measurements

---
 pygsti/objects/operation.py | 4 ++--
 pygsti/objects/povm.py      | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index fb56908..087c720 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -6872,7 +6872,7 @@ class LindbladErrorgen(LinearOperator):
                 if self.sparse:
                     otherGens = [_mt.safereal(_mt.safedot(leftTrans, _mt.safedot(mx, rightTrans)),
                                               inplace=True, check=True) for mx in otherGens]
-                    for mx in hamGens: mx.sort_indices()
+                    for mx in otherGens: mx.sort_indices()
                     # for faster addition ops in _construct_errgen_matrix
                 else:
                     #otherGens = _np.einsum("ik,akl,lj->aij", leftTrans, otherGens, rightTrans)
@@ -7488,7 +7488,7 @@ class LindbladErrorgen(LinearOperator):
             hamC, otherC, self.ham_basis, self.other_basis, self.nonham_mode, return_basis)
 
         if logscale_nonham:
-            Ltermdict = Ltermdict_and_maybe_basis if return_basis else Ltermdict_and_maybe_basis
+            Ltermdict = Ltermdict_and_maybe_basis[0] if return_basis else Ltermdict_and_maybe_basis
             d2 = self.dim
             for k in Ltermdict.keys():
                 if k[0] == "S":  # reverse mapping: err_coeff -> err_rate
diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 10fde81..6c9374d 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -798,6 +798,8 @@ class TensorProdPOVM(POVM):
         """
         for povm in self.factorPOVMs:
             povm.from_vector(v[povm.gpindices], close, nodirty)
+        for effect in _collections.OrderedDict.values(self):  # effects created so far
+            effect._update_rep()
 
     def depolarize(self, amount):
         """
-- 
2.43.0


From 1b1e529d0b05d3cd7430cdcfbbd67f54627441d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 099/109] fix: sparse bases of different sizes compared equal
 when one is a prefix of the other

---
 pygsti/objects/basis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 211dd8b..b0f74d0 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -332,10 +332,9 @@ class Basis(object):
                 _warnings.warn("Attempted comparison between bases with large sparse matrices!  Assuming not equal.")
                 return False  # to expensive to compare sparse matrices
 
-            if otherIsBasis:
-                return all([_sparse_equal(A, B) for A, B in zip(self.elements, other.elements)])
-            else:
-                return all([_sparse_equal(A, B) for A, B in zip(self.elements, other)])
+            other_elements = other.elements if otherIsBasis else other
+            return len(self.elements) == len(other_elements) \
+                and all([_sparse_equal(A, B) for A, B in zip(self.elements, other_elements)])
         else:
             if otherIsBasis:
                 return _np.array_equal(self.elements, other.elements)
-- 
2.43.0


From ab7804323ee634c3f73d27b8d1c66449f3cb6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 100/109] fix: compiled stabilizer frames lost amplitudes when
 sampling parity checks over several qubits

---
 pygsti/objects/replib/fastreps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index 49a43c8..4048977 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -1963,7 +1963,7 @@ namespace CReps {
 	}
       }
       if(inds.size() > 0) {
-	INT parity = (gen_p/2 - (fixed1s % 2)) % 2; // effective parity
+	INT parity = (gen_p/2 + fixed1s) % 2; // effective parity (0 or 1; note that C's % keeps the sign)
 	INT* b = new INT[qs_to_sample.size()]; //els are just 0 or 1
 	INT bi;
 	for(bi=0; bi<(INT)qs_to_sample.size(); bi++) b[bi] = 0;
@@ -1972,7 +1972,7 @@ namespace CReps {
 	  // tup == b
 	  INT tup_parity = 0;
 	  for(INT kk=0; kk<(INT)inds.size(); kk++) tup_parity += b[inds[kk]];
-	  if(tup_parity != parity) { // parity among inds is NOT allowed => set ampl to zero
+	  if(tup_parity % 2 != parity) { // parity among inds is NOT allowed => set ampl to zero
 	    if(std::isnan(amp_samples[k].real())) remaining -= 1; //need NAN check here -- TODO replace -1 sentinels
 	    amp_samples[k] = 0.0;
 	  }
-- 
2.43.0


From df2cea5e899c088c554bdd50678346f38bcbf869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 101/109] fix: randomized-benchmarking analyses (rtype, numeric
 asymptote, depth subsets, per-circuit and comparison data, weighted exact
 decays)

---
 pygsti/algorithms/rbfit.py | 11 +++++++----
 pygsti/protocols/rb.py     | 24 +++++++++++++++---------
 pygsti/tools/rbtheory.py   |  8 ++++----
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/pygsti/algorithms/rbfit.py b/pygsti/algorithms/rbfit.py
index 0ba703a..7494b63 100644
--- a/pygsti/algorithms/rbfit.py
+++ b/pygsti/algorithms/rbfit.py
@@ -183,10 +183,13 @@ def std_least_squares_data_fitting(lengths, ASPs, n, seed=None, asymptote=None,
     if asymptote is not None: A = asymptote
     else: A = 1 / 2**n
     # First perform a fit with a fixed asymptotic value
-    FAF_results = custom_least_squares_data_fitting(lengths, ASPs, n, A=A, seed=seed)
+    FAF_results = custom_least_squares_data_fitting(lengths, ASPs, n, A=A, seed=seed, rtype=rtype)
     # Full fit is seeded by the fixed asymptote fit.
-    seed_full = [FAF_results['estimates']['A'], FAF_results['estimates']['B'], FAF_results['estimates']['p']]
-    FF_results = custom_least_squares_data_fitting(lengths, ASPs, n, seed=seed_full)
+    if FAF_results['success']:
+        seed_full = [FAF_results['estimates']['A'], FAF_results['estimates']['B'], FAF_results['estimates']['p']]
+    else:
+        seed_full = None
+    FF_results = custom_least_squares_data_fitting(lengths, ASPs, n, seed=seed_full, rtype=rtype)
     # Returns the requested fit type.
     if ftype == 'full': return FF_results
     elif ftype == 'FA': return FAF_results
@@ -332,7 +335,7 @@ def custom_least_squares_data_fitting(lengths, ASPs, n, A=None, B=None, seed=Non
         estimates['A'] = A
         estimates['B'] = B
         estimates['p'] = p
-        estimates['r'] = _rbt.p_to_r(p, 2**n)
+        estimates['r'] = _rbt.p_to_r(p, 2**n, rtype)
 
     results = {}
     results['estimates'] = estimates
diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index 33cb10b..e5ca30a 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -524,7 +524,10 @@ class Benchmark(_proto.Protocol):
                                  get_summary_values, for_passes='all')
 
     def compute_circuit_data(self, data):
-        names = ['success_counts', 'total_counts', 'hamming_distance_counts', 'success_probabilities']
+        names = ['twoQgate_count', 'depth', 'target', 'circuit_index', 'width']
+        for circuits_at_depth in data.edesign.circuit_lists:
+            for circ in circuits_at_depth:
+                names.extend([k for k in data.dataset[circ].aux if k not in names])
 
         def get_circuit_values(icirc, circ, dsrow, idealout):
             ret = {'twoQgate_count': circ.twoQgate_count(),
@@ -543,10 +546,11 @@ class Benchmark(_proto.Protocol):
             ret = {'tvds': dscomparator.tvds.get(circ, _np.nan),
                    'pvals': dscomparator.pVals.get(circ, _np.nan),
                    'jsds': dscomparator.jsds.get(circ, _np.nan),
-                   'llrs': dscomparator.llrs.get(circ, _np.nan)}
+                   'llrs': dscomparator.llrs.get(circ, _np.nan),
+                   'sstvds': (dscomparator.sstvds or {}).get(circ, _np.nan)}
             return ret
 
-        return self.compute_dict(data, "dscmpdata", self.dsmp_datatypes, get_dscmp_values, for_passes="none")
+        return self.compute_dict(data, self.dscmp_datatypes, get_dscmp_values, for_passes="none")
 
     def compute_predicted_probs(self, data, model):
 
@@ -611,7 +615,7 @@ class Benchmark(_proto.Protocol):
         """
         key = 'bootstraps' if finitecounts else 'infbootstraps'
         if key in data_cache:
-            num_existing = len(data_cache['bootstraps'])
+            num_existing = len(data_cache[key])
         else:
             data_cache[key] = []
             num_existing = 0
@@ -750,7 +754,7 @@ class VolumetricBenchmarkGridPP(_proto.ProtocolPostProcessor):
 
                 #Get the list of depths we'll extract from this (`root`) sub-results
                 depths = root.data.edesign.depths if (self.depths == 'all') else \
-                    filter(lambda d: d in self.depths, root.data.edesign.depths)
+                    [d for d in root.data.edesign.depths if d in self.depths]
                 width = len(root.data.edesign.qubit_labels)  # sub-results contains only a single width
                 if self.widths != 'all' and width not in self.widths: continue  # skip this one
 
@@ -769,7 +773,7 @@ class VolumetricBenchmarkGridPP(_proto.ProtocolPostProcessor):
                     fails[depth][width] = root.failure_counts[depth][width]
                     path_for_gridloc[depth][width] = path
 
-            if self.statistic in ('minmin', 'maxmax') and not self.aggregate:
+            if self.statistic in ('minmin', 'maxmax') and not (self.aggregate and len(passnames) > 1):
                 self._update_vb_minmin_maxmax(vb)   # aggregate now since we won't aggregate over passes
 
             #Create Results
@@ -828,7 +832,7 @@ class VolumetricBenchmarkGridPP(_proto.ProtocolPostProcessor):
             aggregated_results.failure_counts = agg_fails
 
             if self.statistic in ('minmin', 'maxmax'):
-                self._update_vb_minmin_maxmax(aggregated_results.qtys['volumetric_benchmarks'])
+                self._update_vb_minmin_maxmax(aggregated_results.volumetric_benchmarks)
             return aggregated_results  # replace per-pass results with aggregated results
         elif len(passnames) > 1:
             multipass_results = _proto.MultiPassResults(data, self)
@@ -961,7 +965,7 @@ class VolumetricBenchmark(Benchmark):
         if self.depths == 'all':
             depths = data_per_depth.keys()
         else:
-            depths = filter(lambda d: d in data_per_depth, self.depths)
+            depths = [d for d in self.depths if d in data_per_depth]
         width = len(design.qubit_labels)
 
         vb = self.create_depthwidth_dict(depths, (width,), lambda: None, 'float')
@@ -1064,7 +1068,7 @@ class RandomizedBenchmarking(Benchmark):
         if self.depths == 'all':
             depths = list(data_per_depth.keys())
         else:
-            depths = filter(lambda d: d in data_per_depth, self.depths)
+            depths = [d for d in self.depths if d in data_per_depth]
 
         nQubits = len(design.qubit_labels)
 
@@ -1076,6 +1080,8 @@ class RandomizedBenchmarking(Benchmark):
                 asymptote = 1 / 4**nQubits
             else:
                 raise ValueError("No 'std' asymptote for %s datatype!" % self.asymptote)
+        else:
+            asymptote = self.asymptote
 
         def get_rb_fits(circuitdata_per_depth):
             ASPs = []
diff --git a/pygsti/tools/rbtheory.py b/pygsti/tools/rbtheory.py
index da4dc6f..11e90ac 100644
--- a/pygsti/tools/rbtheory.py
+++ b/pygsti/tools/rbtheory.py
@@ -539,9 +539,11 @@ def exact_RB_ASPs(mdl, group, m_max, m_min=0, m_step=1, success_outcomelabel=('0
     extended_rho = _np.kron(_mtls.column_basis_vector(0, group_dim), mdl.preps[success_prepLabel])
 
     if compilation is None:
-        extended_E = group_dim * _np.dot(extended_E, R)
+        # the inversion (and the twirl) use each group element equally, whatever the sampling weights
+        R_unweighted = R_matrix(mdl, group, group_to_model=group_to_model)
+        extended_E = group_dim * _np.dot(extended_E, R_unweighted)
         if group_twirled is True:
-            extended_rho = _np.dot(R, extended_rho)
+            extended_rho = _np.dot(R_unweighted, extended_rho)
     else:
         full_model = _cnst.build_explicit_alias_model(mdl, compilation)
         R_fullgroup = R_matrix(full_model, group)
@@ -775,8 +777,6 @@ def gate_dependence_of_errormaps(mdl, target_model, norm='diamond', mxBasis=None
 
     for gate in list(target_model.operations.keys()):
         if norm == 'diamond':
-            print(error_gs.operations[gate])
-            print(error_gs.operations['Gavg'])
             delta.append(_optls.diamonddist(error_gs.operations[gate], error_gs.operations['Gavg'],
                                             mxBasis=mxBasis))
         elif norm == '1to1':
-- 
2.43.0


From ec0ca3b13d5104aa448bdc7741533fae3074101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 102/109] fix: RPE results could not report raw angles, and the
 Up/Dn configuration had its effects swapped

---
 pygsti/extras/rpe/rpeconfig_GxPi2_GyPi2_UpDn.py | 2 +-
 pygsti/protocols/rpe.py                         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/extras/rpe/rpeconfig_GxPi2_GyPi2_UpDn.py b/pygsti/extras/rpe/rpeconfig_GxPi2_GyPi2_UpDn.py
index 243ab24..92b1eed 100644
--- a/pygsti/extras/rpe/rpeconfig_GxPi2_GyPi2_UpDn.py
+++ b/pygsti/extras/rpe/rpeconfig_GxPi2_GyPi2_UpDn.py
@@ -22,7 +22,7 @@ rpeconfig_GxPi2_GyPi2_UpDn_dict['auxiliary_axis_gate_label'] = 'Gz'
 rpeconfig_GxPi2_GyPi2_UpDn_dict['auxiliary_axis_label'] = 'Z'
 rpeconfig_GxPi2_GyPi2_UpDn_dict['rhoExpressions'] = ["0"]
 rpeconfig_GxPi2_GyPi2_UpDn_dict['ELabels'] = ["0", "1"]
-rpeconfig_GxPi2_GyPi2_UpDn_dict['EExpressions'] = ["0", "1"]
+rpeconfig_GxPi2_GyPi2_UpDn_dict['EExpressions'] = ["1", "0"]
 #rpeconfig_GxPi2_GyPi2_UpDn_dict['spamLabelDict'] = {'plus': (0,0), 'minus': (0,-1) }
 rpeconfig_GxPi2_GyPi2_UpDn_dict['spamLabelDict'] = {'plus': ('rho0', 'E0'), 'minus': ('rho0', 'remainder')}
 rpeconfig_GxPi2_GyPi2_UpDn_dict['dn_labels'] = ['1']
diff --git a/pygsti/protocols/rpe.py b/pygsti/protocols/rpe.py
index 6c83dde..808f0cd 100644
--- a/pygsti/protocols/rpe.py
+++ b/pygsti/protocols/rpe.py
@@ -170,13 +170,13 @@ class RobustPhaseEstimationResults(_proto.ProtocolResults):
 
     @property
     def measured_counts(self):
-        return self.protocol_instance.parse_dataset(
+        return self.protocol.parse_dataset(
             self.data.edesign, self.data.dataset
         )
 
     @property
     def raw_angles(self):
-        return self.protocol_instance.rawn_angles(self.measured_counts)
+        return self.protocol.raw_angles(self.measured_counts)
 
 
 # shorthands
-- 
2.43.0


From 89d1264a737155394081ab098a074a14b05f2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 103/109] fix: MPI distribution of empty, repeated or unordered
 indices and of fewer items than processors

---
 pygsti/tools/mpitools.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pygsti/tools/mpitools.py b/pygsti/tools/mpitools.py
index 9301a17..4a3751c 100644
--- a/pygsti/tools/mpitools.py
+++ b/pygsti/tools/mpitools.py
@@ -75,9 +75,9 @@ def distribute_indices(indices, comm, allow_split_comm=True):
     #if nprocs > 1 and len(indices)==1 and (comm is not None) and allow_split_comm:
     #    loc_comm = comm #split is unnecessary
     #el
-    if nprocs > len(indices) and (comm is not None) and allow_split_comm:
-        color = loc_indices[0] if isinstance(loc_indices[0], int) \
-            else (int(hash(loc_indices[0])) >> 32)  # mpi4py only allows 32-bit ints
+    if nprocs > len(indices) > 0 and (comm is not None) and allow_split_comm:
+        #color == position (not value) of the local index, which is always a valid non-negative 32-bit integer
+        color = distribute_indices_base(list(range(len(indices))), nprocs, rank, True)[0][0]
         loc_comm = comm.Split(color=color, key=rank)
     else:
         loc_comm = None
@@ -297,7 +297,7 @@ def distribute_slice(s, comm, allow_split_comm=True):
         nprocs = comm.Get_size()
         rank = comm.Get_rank()
 
-    slices = slice_up_slice(s, min(nprocs, _slct.length(s)))
+    slices = slice_up_slice(s, max(min(nprocs, _slct.length(s)), 1))  # an empty slice stays in one piece
     assert(len(slices) <= nprocs)
     loc_iSlices, slcOwners = \
         distribute_indices_base(list(range(len(slices))), nprocs, rank,
@@ -649,7 +649,8 @@ def gather_indices(indices, index_owners, arToFill, arToFillInds,
             while i < N:
                 start = lst[i]
                 step = lst[i + 1] - lst[i] if i + 1 < N else None
-                while i + 1 < N and lst[i + 1] - lst[i] == step: i += 1
+                if step is not None and step <= 0: step = None  # slices can't hold descending or repeated indices
+                while step is not None and i + 1 < N and lst[i + 1] - lst[i] == step: i += 1
                 stop = lst[i] + 1
                 slc_lst.append(slice(start, stop, None if step == 1 else step))
                 i += 1
@@ -712,6 +713,7 @@ def distribute_for_dot(contracted_dim, comm):
         list(range(contracted_dim)), comm, False)
 
     #Make sure local columns are contiguous
+    if len(loc_indices) == 0: return slice(0, 0)  # more processors than indices
     start, stop = loc_indices[0], loc_indices[-1] + 1
     assert(loc_indices == list(range(start, stop)))
     return slice(start, stop)  # local column range as a slice
@@ -776,9 +778,10 @@ def parallel_apply(f, l, comm):
     results : list
         list of items after f has been applied
     '''
-    locArgs, _, locComm = distribute_indices(l, comm)
+    #distribute the *positions* of l's elements, since the elements may be repeated or unhashable
+    locPositions, _, locComm = distribute_indices(list(range(len(l))), comm)
     if locComm is None or locComm.Get_rank() == 0:  # only first proc in local comm group
-        locResults = [f(arg) for arg in locArgs]  # needs to do anything
+        locResults = [f(l[i]) for i in locPositions]  # needs to do anything
     else: locResults = []
     results = comm.allgather(locResults)  # Certain there is a better way to do this (see above)
     results = list(_itertools.chain.from_iterable(results))  # list-of-lists -> single list
-- 
2.43.0


From 47851ce71e4ef489e5c9fa95999116472bbaa58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 104/109] fix: second derivatives could not be computed when
 only one of the two parameter block sizes was given

---
 pygsti/objects/mapforwardsim.py    | 2 ++
 pygsti/objects/matrixforwardsim.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pygsti/objects/mapforwardsim.py b/pygsti/objects/mapforwardsim.py
index e995efc..11ba5d3 100644
--- a/pygsti/objects/mapforwardsim.py
+++ b/pygsti/objects/mapforwardsim.py
@@ -800,6 +800,8 @@ class MapForwardSimulator(ForwardSimulator):
 
             else:  # Divide columns into blocks of at most blkSize
                 assert(wrtFilter1 is None and wrtFilter2 is None)  # cannot specify both wrtFilter and blkSize
+                if blkSize1 is None: blkSize1 = self.Np  # None means all rows (columns)
+                if blkSize2 is None: blkSize2 = self.Np  # in a single block
                 nBlks1 = int(_np.ceil(self.Np / blkSize1))
                 nBlks2 = int(_np.ceil(self.Np / blkSize2))
                 # num blocks required to achieve desired average size == blkSize1 or blkSize2
diff --git a/pygsti/objects/matrixforwardsim.py b/pygsti/objects/matrixforwardsim.py
index fb20e15..6924f0b 100644
--- a/pygsti/objects/matrixforwardsim.py
+++ b/pygsti/objects/matrixforwardsim.py
@@ -2486,6 +2486,8 @@ class MatrixForwardSimulator(ForwardSimulator):
 
             else:  # Divide columns into blocks of at most blkSize
                 assert(wrtFilter1 is None and wrtFilter2 is None)  # cannot specify both wrtFilter and blkSize
+                if blkSize1 is None: blkSize1 = self.Np  # None means all rows (columns)
+                if blkSize2 is None: blkSize2 = self.Np  # in a single block
                 nBlks1 = int(_np.ceil(self.Np / blkSize1))
                 nBlks2 = int(_np.ceil(self.Np / blkSize2))
                 # num blocks required to achieve desired average size == blkSize1 or blkSize2
-- 
2.43.0


From 5bd0cc9bfae463b47e4ceb3a4351bebae246c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 105/109] fix: splitting a cacheless map evaluation tree by
 size could list a circuit in two subtrees

---
 pygsti/objects/mapevaltree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/mapevaltree.py b/pygsti/objects/mapevaltree.py
index 8e1d721..f5b17f2 100644
--- a/pygsti/objects/mapevaltree.py
+++ b/pygsti/objects/mapevaltree.py
@@ -744,7 +744,7 @@ class MapEvalTree(EvalTree):
         #            (_time.time()-tm)); tm = _time.time()  #REMOVE
         updated_elIndices = self._finish_split(elIndicesDict, subTreeSetList,
                                                permute_parent_element, create_subtree,
-                                               all_final=bool(self.cache_size() == 0))
+                                               all_final=bool(numSubTrees is not None and self.cache_size() == 0))
 
         printer.log("EvalTree.split done second pass in %.0fs" %
                     (_time.time() - tm)); tm = _time.time()
-- 
2.43.0


From ee2133e064e4080bf66f0c7a7139cef468211471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:49 +0000
Subject: [PATCH 106/109] fix: StandardGST's linear-inversion starting point
 was appended to the results (failing when several lengths are used), and
 modes shared options

---
 pygsti/protocols/gst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 3094416..575f8bd 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -208,6 +208,7 @@ class GateSetTomography(_proto.Protocol):
 
         elif startingPt in ("LGST", "LGST-if-possible"):
             lgst_advanced = advancedOptions.copy(); lgst_advanced.update({'estimateLabel': "LGST", 'onBadFit': []})
+            lgst_advanced.pop('appendTo', None)  # LGST just gives a starting point: keep its results separate
             lgst = LGST(mdl_start,
                         gaugeopt_suite={'lgst_gaugeopt': {'tol': lgst_advanced.get('lgst_gaugeopt_tol', 1e-8)}},
                         gaugeopt_target=self.gaugeopt_target, advancedOptions=lgst_advanced)
@@ -486,7 +487,7 @@ class StandardGST(_proto.Protocol):
                 printer.show_progress(i, len(modes), prefix='-- Std Practice: ', suffix=' (%s) --' % mode)
 
                 #prepare advanced options dictionary
-                advanced = advancedOptions.get('all', {})
+                advanced = advancedOptions.get('all', {}).copy()  # so modes don't affect one another
                 advanced.update(advancedOptions.get(mode, {}))
 
                 if mode == "Target":
-- 
2.43.0


From ed31a76a4ecdb2736e5c585889acdc52e314528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 107/109] fix: the brute-force minimiser only worked for two
 variables

---
 pygsti/optimize/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/optimize/optimize.py b/pygsti/optimize/optimize.py
index 9947e16..65f42df 100644
--- a/pygsti/optimize/optimize.py
+++ b/pygsti/optimize/optimize.py
@@ -107,7 +107,7 @@ def minimize(fn, x0, method='cg', callback=None,
 
     elif method == 'brute':
         ranges = [(0.0, 1.0)] * len(x0); Ns = 4  # params for 'brute' algorithm
-        xmin, _ = _spo.brute(fn, ranges, (), Ns)  # jac=jac
+        xmin = _np.atleast_1d(_spo.brute(fn, ranges, (), Ns))  # jac=jac
         #print "DEBUG: Brute fmin = ",fmin
         solution = _spo.minimize(fn, xmin, method="Nelder-Mead", options={}, tol=tol, callback=callback, jac=jac)
 
-- 
2.43.0


From 2b3e8f62cfbdf57d1af698693787014791bbd2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 108/109] fix: the norm bound of a sparse error generator left
 out its stochastic part

---
 pygsti/objects/operation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 087c720..7708334 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -7127,6 +7127,7 @@ class LindbladErrorgen(LinearOperator):
             if hamCoeffs is not None:
                 onenorm += _np.dot(self.hamGens_1norms, _np.abs(hamCoeffs))
                 if otherCoeffs is not None:
+                    onenorm += _np.dot(self.otherGens_1norms, _np.abs(otherCoeffs.flat))
                     coeffs = _np.concatenate((hamCoeffs, otherCoeffs.flat), axis=0)
                 else:
                     coeffs = hamCoeffs
-- 
2.43.0


From f4e4324d228c79a2a3ca3a7c549d03811a16c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 109/109] fix: second-order idle-tomography fits took the slope
 at the far root, with the wrong sign for convex data

---
 pygsti/extras/idletomography/idtcore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/extras/idletomography/idtcore.py b/pygsti/extras/idletomography/idtcore.py
index ba42be2..91896da 100644
--- a/pygsti/extras/idletomography/idtcore.py
+++ b/pygsti/extras/idletomography/idtcore.py
@@ -899,7 +899,7 @@ def get_obs_samebasis_err_rate(dataset, pauli_fidpair, pauliBasisDicts, idle_str
     elif fitOrder == 2:
         #OLD: slope =  coeffs[1] # c2*x2 + c1*x + c0 ->deriv@x=0-> c1
         det = coeffs[1]**2 - 4 * coeffs[2] * coeffs[0]
-        slope = -_np.sign(coeffs[0]) * _np.sqrt(det) if det >= 0 else coeffs[1]
+        slope = _np.sign(coeffs[1]) * _np.sqrt(det) if det >= 0 else coeffs[1]
     else: raise NotImplementedError("Only fitOrder <= 2 are supported!")
 
     return {'rate': slope,
@@ -1014,9 +1014,9 @@ def get_obs_diffbasis_err_rate(dataset, pauli_fidpair, pauliBasisDicts,
     elif fitOrder == 2:
         #OLD: slope =  coeffs[1] # c2*x2 + c1*x + c0 ->deriv@x=0-> c1
         det = coeffs[1]**2 - 4 * coeffs[2] * coeffs[0]
-        slope = -_np.sign(coeffs[0]) * _np.sqrt(det) if det >= 0 else coeffs[1]
+        slope = _np.sign(coeffs[1]) * _np.sqrt(det) if det >= 0 else coeffs[1]
         # c2*x2 + c1*x + c0 ->deriv@y=0-> 2*c2*x0 + c1;
-        # x0=[-c1 +/- sqrt(c1^2 - 4c2*c0)] / 2*c2; take smaller root
+        # x0=[-c1 +/- sqrt(c1^2 - 4c2*c0)] / 2*c2; take root closest to 0
         # but if determinant is < 0, fall back to x=0 slope
     else: raise NotImplementedError("Only fitOrder <= 2 are supported!")
 
-- 
2.43.0

