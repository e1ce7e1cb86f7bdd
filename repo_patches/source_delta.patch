From 43856384e9136d5208ccfc55bd850571dc57751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 001/120] fix: Hitcore.set leaves the variable unchanged when
 the value is rejected

A value of the wrong type (or an integer out of range) overwrote the variable
with -1 (or a wrapped integer) before the error was raised.
---
 xboa/core/pylib/PyHitcore.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 542ebe4..c50abf6 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -23,6 +23,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <limits.h>
 
 #include "utils/TypeConversions.hh"
 
@@ -101,12 +102,24 @@ PyObject* set(PyObject* self, PyObject *args, PyObject *kwds) {
 
     std::string variable_name(variable_name_c_str);
     double value_dbl = PyFloat_AsDouble(py_value);
+    if (PyErr_Occurred() != NULL)
+        return NULL; // not a number; leave the variable as it was
     if (hc->hitcore_->set_double(variable_name, value_dbl))
         Py_RETURN_NONE; // success, return None
 
-    int value_int = PyLong_AsLong(py_value);
-    if (hc->hitcore_->set_int(variable_name, value_int))
-        Py_RETURN_NONE; // success, return None
+    int value_int = 0;
+    if (hc->hitcore_->get_int(variable_name, &value_int)) {
+        long value_long = PyLong_AsLong(py_value);
+        if (PyErr_Occurred() != NULL)
+            return NULL; // not an integer; leave the variable as it was
+        if (value_long < INT_MIN || value_long > INT_MAX) {
+            PyErr_SetString(PyExc_OverflowError,
+                            "Integer out of range in Hitcore.set");
+            return NULL;
+        }
+        if (hc->hitcore_->set_int(variable_name, int(value_long)))
+            Py_RETURN_NONE; // success, return None
+    }
 
     PyErr_SetString(PyExc_KeyError, "Did not recognise variable in Hitcore.get");
     return NULL;
-- 
2.43.0


From 7ad375e72519db14899ed04a3645a99b3c6e02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 002/120] fix: set the global weight after the hit identity
 when building a hit from a dict

Copying, unpickling or new_from_dict applied the global weight to particle
(0, 0, 0) before the spill, event and particle numbers were set.
---
 xboa/hit/_hit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1c17067..7e9ff98 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -145,8 +145,7 @@ class Hit(object):
     e.g. myHit = Hit.new_from_dict({'x':5, 'y':0, 'z':100, 'px':0, 'py':5, 'pz':200, 'pid':-13}, 'energy' )
     """
     my_hit = Hit()
-    for k,v in set_dict.items():
-      my_hit.set(k, v)
+    my_hit.__set_from_dict(set_dict)
     if(mass_shell_string != ''):
       my_hit.mass_shell_condition(mass_shell_string)
     return my_hit
@@ -710,8 +709,16 @@ class Hit(object):
     Sets self to be equal to new_from_dict(state)
     """
     self.__init__()
-    for k,v in state.items():
-      self.set(k, v)
+    self.__set_from_dict(state)
+
+  # set data from a dict; global_weight is looked up by (spill, event, particle)
+  # so it is set after those
+  def __set_from_dict(self, set_dict):
+    for k,v in set_dict.items():
+      if k != 'global_weight':
+        self.set(k, v)
+    if 'global_weight' in set_dict:
+      self.set('global_weight', set_dict['global_weight'])
 
   #write formatted output - don't touch mass or pid beyond reading them
   def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
-- 
2.43.0


From 9693acde16fa7503a3216267386cef25ad74b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 003/120] fix: look up a hit's global weight by (spill, event,
 particle)

Hitcore swapped event and particle when addressing the weight context, so
weights set through WeightContext.set_weight reached the wrong particle.
---
 xboa/core/cpplib/Hitcore.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 2f86092..9a60e16 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -436,12 +436,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 }
 
 void Hitcore::set_global_weight(double global_weight) {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     weightContext->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     double wt = weightContext->getWeight(hitid);
     return wt;
 }
-- 
2.43.0


From 601bb8b78b3af9669a6e875e22a2bc904e52cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 004/120] fix: WeightContext.get_weight/set_weight accept their
 documented keywords

The keyword table pointed at destroyed strings, had fewer entries than the
format and missing arguments were left uninitialised.
---
 xboa/core/pylib/PyWeightContext.cc | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 1e3f269..79fee83 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -40,12 +40,6 @@ std::string get_default_weight_docstring =
 std::string("\n");
 
 
-// A whole world of pain to make a non-const c-string. There must be an easier way!
-char* cstring(std::string word) {
-    char* dest = const_cast<char*>(word.data());
-    return dest;
-}
-
 typedef WeightContext::HitId HitId;
 
 PyObject* getDefaultWeight(PyObject* self, PyObject *args, PyObject *kwds) {
@@ -83,13 +77,13 @@ PyObject* setWeight(PyObject* self, PyObject *args, PyObject *kwds) {
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
     double weight;
-    int spill, event, particle;
-    std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
-        cstring("eventNumber"), cstring("particleNumber"), NULL
+    int spill = 0, event = 0, particle = 0;
+    static const char* c_argnames[] = {
+        "weight", "spill", "event_number", "particle_number",
+        "eventNumber", "particleNumber", NULL
     };
-    int err = PyArg_ParseTupleAndKeywords(args, kwds, "|diiiii",
-               &c_argnames[0],
+    int err = PyArg_ParseTupleAndKeywords(args, kwds, "d|iiiii",
+               const_cast<char**>(c_argnames),
                &weight, &spill, &event, &particle, &event, &particle);
     if(err == 0) {
         PyErr_SetString(PyExc_KeyError,
@@ -108,14 +102,14 @@ PyObject* getWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    int spill, event, particle;
-    std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
-        cstring("eventNumber"), cstring("particleNumber"), NULL
+    int spill = 0, event = 0, particle = 0;
+    static const char* c_argnames[] = {
+        "spill", "event_number", "particle_number",
+        "eventNumber", "particleNumber", NULL
     };
 
     int err = PyArg_ParseTupleAndKeywords(args, kwds, "|iiiii",
-               &c_argnames[0],
+               const_cast<char**>(c_argnames),
                &spill, &event, &particle, &event, &particle);
     if(err == 0) {
         PyErr_SetString(PyExc_KeyError,
-- 
2.43.0


From 311cf77766fe3f4c433365557114bc92c1b00261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 005/120] fix: bunch statistics use the currently active weight
 context

---
 xboa/core/pylib/PyBunchcore.cc | 42 ++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ceba265..c84ef55 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -68,6 +68,26 @@ void dealloc(PyBunchcore* self) {
     }
 }
 
+// This library holds its own Hitcore::weightContext; set it to the context that
+// is currently active in _hitcore. Returns false with a python error on failure.
+bool setWeightContext() {
+    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
+    if (hc_module == NULL)
+        return false;
+    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
+    Py_DECREF(hc_module);
+    if (hc_class == NULL)
+        return false;
+    PyObject* pyobj_wc = PyObject_CallMethod(hc_class, "get_weight_context", NULL);
+    Py_DECREF(hc_class);
+    if (pyobj_wc == NULL)
+        return false;
+    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
+    Hitcore::weightContext = pywc->cppcontext_;
+    Py_DECREF(pyobj_wc);
+    return true;
+}
+
 std::string get_item_docstring = 
     std::string("Get an element in the Bunchcore\n")+
     std::string("  - index: integer indexing the element in the Bunchcore.\n")+
@@ -212,6 +232,8 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments to pyobjects
     static char *kwlist[] = {const_cast<char*>("axes"),
                              const_cast<char*>("means"),
@@ -267,6 +289,8 @@ PyObject* covariance_matrix(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments to pyobjects
     static char *kwlist[] = {const_cast<char*>("axes"),
                              const_cast<char*>("means"),
@@ -324,6 +348,8 @@ PyObject* cut_double(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments
     static char *kwlist[] = {const_cast<char*>("cut_variable"),
                              const_cast<char*>("comparator"),
@@ -371,6 +397,8 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments
     static char *kwlist[] = {const_cast<char*>("axes"),
                              const_cast<char*>("max_power"),
@@ -526,17 +554,6 @@ static struct PyModuleDef bunchcoredef = {
     NULL,                /* m_free */
 };
 
-void setWeightContext() {
-    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
-    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
-    PyObject* get_context = PyObject_GetAttrString(hc_class, "get_weight_context");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(get_context, empty_tuple);
-    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
-}
-
-
 PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyBunchcoreType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&PyBunchcoreType) < 0) {
@@ -566,7 +583,8 @@ PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyDict_SetItemString(bc_dict, "C_API_CREATE_EMPTY_BUNCHCORE", ceb_c_api);
     PyDict_SetItemString(bc_dict, "C_API_GET_BUNCHCORE", gbc_c_api);
     PyDict_SetItemString(bc_dict, "C_API_SET_BUNCHCORE", sbc_c_api);
-    setWeightContext();
+    if (!setWeightContext())
+        return NULL;
     return module;
 }
 
-- 
2.43.0


From f667f4ce451c4a2a4e4a1a961c4ae46d538931d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 006/120] fix: compare the internal covariance matrix with None
 by identity

numpy compares element by element, so every statistic raised ValueError once
set_covariance_matrix had been called.
---
 xboa/bunch/_bunch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7cef33f..5647e64 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -84,7 +84,7 @@ class Bunch:
   def __repr__(self):
     """Return a long string that contains data in every hit"""
     covs = 'None'
-    if self.__covs != None:
+    if self.__covs is not None:
       covs = 'numpy.'+repr(self.__covs)
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
@@ -681,7 +681,7 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
-    if self.__covs != None and len(variable_list) == 2:
+    if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
@@ -770,7 +770,7 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
-      if covariance_matrix == None:
+      if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
       if mean_dict == {}:
@@ -782,7 +782,7 @@ class Bunch:
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-    return self.__covs != None
+    return self.__covs is not None
 
 
   def means_set(self):
@@ -1025,9 +1025,9 @@ class Bunch:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
     cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
     my_cov    = copy.deepcopy(covariance_matrix)
-    if my_cov == None:
+    if my_cov is None:
       my_cov = self.__cov_mat_picker(coupled_axis_list2)
-      if my_cov == None: 
+      if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
     ematrix = matrix(ematrix)
@@ -1880,7 +1880,7 @@ class Bunch:
 
   def __cov_mat_picker(self, axis_list):
     config.has_numpy()
-    if self.__covs == None: return None
+    if self.__covs is None: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
-- 
2.43.0


From 1bf86b36656307d3a034f2035618057c52e6dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 007/120] fix: set_covariance_matrix recalculates from the
 hits, not from the old matrix

---
 xboa/bunch/_bunch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 5647e64..a2678c6 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -769,6 +769,9 @@ class Bunch:
 
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
+    # forget previous values so that they are not used in the recalculation
+    self.__covs  = None
+    self.__means = {}
     if use_internal_covariance_matrix:
       if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
@@ -776,9 +779,6 @@ class Bunch:
       if mean_dict == {}:
         self.__means = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__means = mean_dict
-    else:
-      self.__covs  = None
-      self.__means = {}
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-- 
2.43.0


From e96ca749c3b124d8cce4ff3a0d55765b542b82f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 008/120] fix: keep hits and bunchcore in step when setting or
 deleting an item

Deleting an item called a nonexistent Bunchcore.__delitem__, after the hit had
already been removed; negative indices addressed a different hit in the core.
---
 xboa/bunch/_bunch.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index a2678c6..5bc3999 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -122,13 +122,24 @@ class Bunch:
   
   def __setitem__(self, key, value):
     """Called by subscript operator, sets the key^th hit in the bunch"""
-    self.__hits[key] = value
+    key = self.__core_index(key)
     self.__bunchcore.set_item(value._Hit__hitcore, key)
+    self.__hits[key] = value
 
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
+    key = self.__core_index(key)
+    self.__bunchcore.del_item(key)
     self.__hits.__delitem__(key)
-    self.__bunchcore.__delitem__(key)
+
+  def __core_index(self, key):
+    """Convert a list index, which may be negative, to an index in the bunchcore"""
+    index = operator.index(key)
+    if index < 0:
+      index += len(self.__hits)
+    if index < 0 or index >= len(self.__hits):
+      raise IndexError("Bunch index out of range")
+    return index
 
   def __del__(self):
     """Called by del"""
-- 
2.43.0


From dffb01e49c52ed85d348cc77a8b42569824c0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 009/120] fix: moment uses the bunch mean for every variable
 that has no given mean

---
 xboa/bunch/_bunch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 5bc3999..cf40335 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -700,8 +700,10 @@ class Bunch:
         return float(self.__covs[i1,i2]) # not numpy.float64
       except ValueError:
         pass
-    if variable_mean_dict == {}:
-      variable_mean_dict = self.mean(variable_list)
+    missing = [var for var in variable_list if not var in variable_mean_dict]
+    if len(missing) > 0:
+      variable_mean_dict = dict(variable_mean_dict)
+      variable_mean_dict.update(self.mean(missing))
     try:
       moment = self.__bunchcore.moment(variable_list, variable_mean_dict)
       return moment
@@ -1140,7 +1142,7 @@ class Bunch:
     else:
       return (self.moment(['x','y\''], rotation_axis_dict) - self.moment(['y','x\''], rotation_axis_dict)) * self.mean(['pz'])['pz']
 
-  def get_canonical_angular_momentum(self, bz=None, field_axis_dict={'x':0, 'y':0}, rotation_axis_dict={'x':0,'y':0,'px':0,'py':0}):
+  def get_canonical_angular_momentum(self, bz=None, field_axis_dict={'x':0, 'y':0}, rotation_axis_dict={'x':0,'y':0,'px':0,'py':0,'x\'':0,'y\'':0}):
     """
     Return the bunch canonical angular momentum about some arbitrary axis, defined by
 
-- 
2.43.0


From 7e1d0a67c08bbd69e64e740de134a22041c574ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 010/120] fix: deep copy a bunch from its hits rather than its
 printed form

The printed form is not an expression when a hit holds nan or inf, or when a
covariance matrix is set.
---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index cf40335..dc68782 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -102,7 +102,7 @@ class Bunch:
 
   def __deepcopy__(self, target):
     """Make a copy and copy self's data"""
-    target = eval(self.__repr__())
+    target = Bunch.new_from_hits(self.__hits)
     target.__covs  = copy.deepcopy(self.__covs)
     target.__means = copy.deepcopy(self.__means)
     return target
-- 
2.43.0


From ec6f6859d77b8e5df1b3e221916d1a4d1984b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 011/120] fix: compare hits of bunches that have a covariance
 matrix set

---
 xboa/bunch/_bunch.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index dc68782..0b922f5 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -154,13 +154,7 @@ class Bunch:
     for key,value in self.__means.items():
       if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    try:
-      if not all(self.__covs == target.__covs): return False
-    except:
-      try:
-        if self.__covs != target.__covs: return False 
-      except:
-        return True
+    if not numpy.array_equal(self.__covs, target.__covs): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
-- 
2.43.0


From bb52b672a40c60d94583184db007ec01fcf3e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 012/120] fix: conditional_remove counts in standard
 deviations, not their square root

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 0b922f5..3530705 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -632,7 +632,7 @@ class Bunch:
     """
     for variable, cut_value in variable_value_dict.items():
       if(value_is_nsigma_bool):
-        cut_value *= self.standard_deviation(variable, self.mean([variable]))**0.5
+        cut_value *= self.standard_deviation(variable, self.mean([variable]))
       # optimisation for amplitude cut: calculate covariance matrix first
       # optimisation for gt/lt: sort the hit_value_list first then cut
       hit_value_list = self.list_get_hit_variable([variable])[0]
-- 
2.43.0


From 1a947df5722762093eac62638f8d4e8f4a3365ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 013/120] fix: honour the geometric argument of emittance,
 Twiss and amplitude functions

---
 xboa/bunch/_bunch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 3530705..23e58ef 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -936,7 +936,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     gamma     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       gamma += self.moment([mom,mom], self.mean([mom]))
@@ -964,7 +964,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     alpha     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       alpha += self.moment([axis,mom], self.mean([axis, mom]))
@@ -1015,6 +1015,7 @@ class Bunch:
     ~~~~~~~~~~~~~~~
     would return the dispersion in the y-direction
     """
+    if geometric == None: geometric = Bunch.__geometric_momentum
     mom = Bunch.momentum_variable(axis, geometric)
     return self.moment([mom,'energy'])*self.mean(['energy'])['energy']/self.moment(['energy','energy'])
 
@@ -1111,14 +1112,14 @@ class Bunch:
     and |V| is the determinant.
     """
     if geometric is None: geometric = Bunch.__geometric_momentum
-    cov_list  = Bunch.axis_list_to_covariance_list(axis_list)
+    cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
       my_cov = self.__cov_mat_picker(axis_list)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_list)
     emittance = linalg.det(my_cov)**(1./len(cov_list))
-    if not Bunch.__geometric_momentum:
+    if not geometric:
       emittance /= self.__hits[0].get('mass')
     return float(emittance)
   
@@ -1205,7 +1206,7 @@ class Bunch:
       if my_cov is None:
         my_cov = bunch.covariance_matrix(cov_list)
     my_amp = my_vector*linalg.inv(my_cov)*my_vector.T
-    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov)
+    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov, geometric)
   get_amplitude = staticmethod(get_amplitude)
 
   def axis_list_to_covariance_list(axis_list, geometric=None):
-- 
2.43.0


From b5e789ec2c6c5c68603386d2a58c72be10f8cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 014/120] fix: mass_shell_condition('p') returns False when
 energy is below the mass

The square root was complex; some momentum components were set to it.
---
 xboa/hit/_hit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 7e9ff98..21d2617 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -302,7 +302,12 @@ class Hit(object):
     e  = self.get('energy')
     m  = self.get('mass')
     if(variable_string == 'p'):
-      self.set('p',  ( (e-m)*(e+m) )**0.5 )
+      val = (e-m)*(e+m)
+      if val >= 0.:
+        self.set('p', val**0.5)
+      else:
+        self.set('p', 0.)
+        return False
     elif(variable_string == 'px'):#get direction right!
       val = (e*e-m*m-py*py-pz*pz)
       if val>float_tolerance:
-- 
2.43.0


From 64df8e03eb57a0a3877d4d27ed8596b99d90a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 015/120] fix: restore the pid of a hit when writing it fails

---
 xboa/hit/_hit.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 21d2617..4caaccb 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -404,15 +404,15 @@ class Hit(object):
     """
     if( format.find('maus') > -1 ):
       raise IOError("Can't write single maus hits, only lists of hits")
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.pdg_pid_to_icool[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.pdg_pid_to_mars [self.get('pid')])
-    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.icool_pid_to_pdg[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.mars_pid_to_pdg [self.get('pid')])
+    pid = self.get('pid')
+    try:
+      if( format.find('icool') > -1 ):
+        self.set('pid', Common.pdg_pid_to_icool[pid])
+      if( format.find('mars') > -1 ):
+        self.set('pid', Common.pdg_pid_to_mars [pid])
+      self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
+    finally:
+      self.set('pid', pid)
 
   @classmethod
   def write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
-- 
2.43.0


From 1c60f78a1974ccddde51b43ad2f7e8fff1d6ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 016/120] fix: a word that is not a number costs only the hit
 on that line

Readers skip a line that raises BadEventError, but a bad word raised ValueError
or OverflowError and lost the whole file.
---
 xboa/hit/factory/_line_factory_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 5c507c9..ebe451f 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -61,8 +61,12 @@ class LineFactoryBase(HitFactoryBase):
                 # I ran into problems with int > 1000000 written in scientific 
                 # notation by G4BL (urk)
                 except ValueError:
-                    value = float(value)
-                    value = xboa.hit.Hit._default_var_types[key](value)
+                    try:
+                        value = float(value)
+                        value = xboa.hit.Hit._default_var_types[key](value)
+                    except (ValueError, OverflowError):
+                        raise xboa.hit.BadEventError("Failed to parse "+\
+                                         str(key)+" with line "+str(line))
                 if xboa.hit.Hit._default_var_types[key] == float:
                     value *= common.units[format_units_dict[key]]
                 a_hit.set(key, value)
-- 
2.43.0


From ecc6ca9130907c0b144c3e9312a530ef0afd3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 017/120] fix: apply the g4beamline length unit when reading
 and for both file types

---
 xboa/hit/_hit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 4caaccb..e33a3c3 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -694,9 +694,10 @@ class Hit(object):
 
     e.g. set_g4bl_unit('m') would set the length unit to metres
     """
-    Hit.__file_units['g4beamline_bl_track_file']['x'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['y'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['z'] = unit
+    for table in [Hit.__file_units, xboa.hit.factory.BuiltinHitFactory.file_units]:
+      for file_type in ['g4beamline_bl_track_file', 'g4beamline_bl_track_file_2']:
+        for axis in ['x', 'y', 'z']:
+          table[file_type][axis] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From bf1cbc4f91ca1d09184da7e1d1c2977373b06aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 018/120] fix: sort hits by the comparator in hit_write_user

list.sort takes no comparison function in python 3; a sorted copy is written so
that the hits keep their order in the bunch.
---
 xboa/bunch/_bunch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 23e58ef..883e19d 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -17,6 +17,7 @@
 
 import glob
 import string
+import functools
 import copy
 import gzip
 import io
@@ -1411,9 +1412,10 @@ class Bunch:
     0.003@0.004@0.003@0.004 
     in some_file
     """
+    hits = self.__hits
     if not comparator==None:
-      self.__hits.sort(comparator)
-    for hit in self.__hits:
+      hits = sorted(hits, key=functools.cmp_to_key(comparator))
+    for hit in hits:
       hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)
 
   def build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
-- 
2.43.0


From d045061c0d042f4fe04d4089ccd57ba435e8b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 019/120] fix: pass on the user comment in
 hit_write_builtin_from_dict

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 883e19d..aae58a7 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1394,7 +1394,7 @@ class Bunch:
     all_hits = []
     for key,value in dict_of_bunches.items():
       all_hits += value.hits()
-    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name)
+    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name, user_comment)
   hit_write_builtin_from_dict = staticmethod(hit_write_builtin_from_dict)
   
   def hit_write_user(self, format_list, format_units_dict, file_handle, separator=' ', comparator=None):
-- 
2.43.0


From c03290f0125d9c224fae93fd29283ea2e92c7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 020/120] fix: histogram limits are in the units of the axis,
 like the data

---
 xboa/bunch/_bunch.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index aae58a7..49a4d86 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1535,10 +1535,6 @@ class Bunch:
     weights              = self.list_get_hit_variable(['weight'], [''])[0]
     x_points             = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
     y_bins               = None
-    if xmin!=None: xmin*=Common.units[x_axis_units]
-    if xmax!=None: xmax*=Common.units[x_axis_units]
-    if ymin!=None: ymin*=Common.units[y_axis_units]
-    if ymax!=None: ymax*=Common.units[y_axis_units]
     if y_axis_string=='': 
       (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, 1)
     else:
-- 
2.43.0


From fc1c05e959bd8aff4284061492e8f8208fcfbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 021/120] fix: fit_ellipse normalises the amplitude by the
 dimension of the points

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fd20185..229b137 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -975,7 +975,7 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
     n_points = len(points)
-    n_dim = 2
+    n_dim = len(mean)
     in_cut = [True for i in range(n_points)]
     sqrt_det_inv = numpy.linalg.det(cov_inv)**(1./float(n_dim))
     for i in range(n_points):
-- 
2.43.0


From 18085b3e6b32a8d6ce3c08a18f96b62f4699e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 022/120] fix: read MAUS json files in python 3

---
 xboa/hit/factory/_maus_json_hit_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index e8a0ad3..5ba41a6 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -130,10 +130,10 @@ class MausJsonHitFactory(HitFactoryBase):
         xboa_dict = {}
         three_vec_conversions = cls._maus_three_vec_conversions[format]
         conversion_dict = cls._maus_variable_conversions[format]
-        for maus_name, xboa_suffix in three_vec_conversions.iteritems():
-          for maus_xyz, value in maus_dict[maus_name].iteritems():
+        for maus_name, xboa_suffix in three_vec_conversions.items():
+          for maus_xyz, value in maus_dict[maus_name].items():
             xboa_dict[xboa_suffix+maus_xyz] = value
-        for maus_key, xboa_key in conversion_dict.iteritems():
+        for maus_key, xboa_key in conversion_dict.items():
           xboa_dict[xboa_key] = maus_dict[maus_key]
         xboa_dict['event_number'] = event_number
         if 'mass' not in xboa_dict.keys():
-- 
2.43.0


From ebd592fe08e69e5990155c37fcbe83c94b07aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 023/120] fix: report out-of-range Bunchcore indices rather
 than corrupting memory

---
 xboa/core/cpplib/Bunchcore.cc          | 2 +-
 xboa/core/pylib/PyBunchcore.cc         | 7 ++++++-
 xboa/core/utils/TypeConversions-inl.hh | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index e022861..46471a5 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -35,7 +35,7 @@ void Bunchcore::set_item(size_t i, SmartPointer<Hitcore> hit) {
 
 bool Bunchcore::del_item(size_t i) {
     // can delete an existing hit_
-    if (i > hitcores_.size()) {
+    if (i >= hitcores_.size()) {
         return false;
     }
     hitcores_.erase(hitcores_.begin()+i);
diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index c84ef55..f9937d4 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -168,7 +168,12 @@ PyObject* set_item(PyObject* self, PyObject *args, PyObject *kwds) {
                                  reinterpret_cast<PyHitcore::PyHitcore*>(py_hc);
 
     // Py_INCREF(py_hc);
-    bc->set_item(index, py_hc_alt->hitcore_);
+    try {
+        bc->set_item(index, py_hc_alt->hitcore_);
+    } catch (std::exception& exc) { // could not grow to that length
+        PyErr_SetString(PyExc_IndexError, "Index out of range");
+        return NULL;
+    }
     Py_RETURN_NONE;
 }
 
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 31bffcb..bd584b4 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -24,8 +24,12 @@ bool PyCppIndexConverter::convert(PyObject* py_int, size_t* index) const {
         return false;
     }
     Py_ssize_t py_index = PyLong_AsSsize_t(py_int);
+    if (py_index == -1 && PyErr_Occurred() != NULL) {
+        PyErr_SetString(PyExc_IndexError, "Index out of range");
+        return false;
+    }
     if (py_index < 0) {
-        *index = abs(py_index+1);
+        *index = -(py_index+1);
     } else {
         *index = py_index;
     }
-- 
2.43.0


From c88ab660c62ffe080dd29dabb640340408b54cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 024/120] fix: keep a hit alive while the cut comparator runs

---
 xboa/core/cpplib/Bunchcore.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index 46471a5..c0df019 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -230,7 +230,9 @@ bool Bunchcore::cut_double(const std::string cut_variable,
         return false;
     // iterate over the hitcores, cutting
     for (size_t i = 0; i < hitcores_.size(); ++i) {
-        Hitcore* hc = hitcores_[i].get();
+        // comp may call user code that removes the hit, so hold a reference
+        SmartPointer<Hitcore> hc_ref = hitcores_[i];
+        Hitcore* hc = hc_ref.get();
         // ignore NULLs
         if (hc == NULL)
             continue;
-- 
2.43.0


From d116162517b8f66f0521341998d495aae3c33cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 025/120] fix: release temporary python objects in the core
 libraries

---
 xboa/core/pylib/PyBunchcore.cc         |  1 -
 xboa/core/pylib/PyWeightContext.cc     | 16 ++++++++--------
 xboa/core/utils/PythonComparator.hh    |  6 +++++-
 xboa/core/utils/TypeConversions-inl.hh | 11 ++++++++---
 4 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index f9937d4..eb2d0cb 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -270,7 +270,6 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
 
     // return
     PyObject* py_moment = PyFloat_FromDouble(moment);
-    Py_INCREF(py_moment);
     return py_moment;
 }
 
diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 79fee83..88d7a37 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -186,10 +186,10 @@ void _free(PyWeightContext * self) {
     }
 }
 
-int parseArg(PyObject* o1, PyObject** f1, PyWeightContext** pywc1) {
-    *f1 = PyNumber_Float(o1);
+int parseArg(PyObject* o1, double* d1, PyWeightContext** pywc1) {
+    PyObject* f1 = PyNumber_Float(o1);
     *pywc1 = reinterpret_cast<PyWeightContext*>(o1);
-    if (*f1 == nullptr) {
+    if (f1 == nullptr) {
         PyErr_Clear();
         if (!C_API::is_PyWeightContext(o1)) {
             PyErr_SetString(PyExc_NotImplementedError, "Not able to add these object types");
@@ -197,6 +197,8 @@ int parseArg(PyObject* o1, PyObject** f1, PyWeightContext** pywc1) {
         }
     } else {
         *pywc1 = nullptr; // it's a float after all
+        *d1 = PyFloat_AsDouble(f1);
+        Py_DECREF(f1);
     }
     return 1;
 }
@@ -218,12 +220,12 @@ PyObject *unary_operator(PyObject *o1) {
 
 template <class BinaryOperator>
 PyObject *binary_operator(PyObject *o1, PyObject *o2) {
-    PyObject *f1, *f2;
+    double d1 = 0., d2 = 0.;
     PyWeightContext *pywc1, *pywc2;
-    if (parseArg(o1, &f1, &pywc1) == 0) {
+    if (parseArg(o1, &d1, &pywc1) == 0) {
         return nullptr;
     }
-    if (parseArg(o2, &f2, &pywc2) == 0) {
+    if (parseArg(o2, &d2, &pywc2) == 0) {
         return nullptr;
     }
 
@@ -238,7 +240,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     if (pywc1 != nullptr) {
         WeightContext* wc1 = pywc1->cppcontext_.get();
         if (pywc2 == nullptr) {
-            double d2 = PyFloat_AsDouble(f2);
             wc3 = op.operate(*wc1, d2);
         } else {
             WeightContext* wc2 = pywc2->cppcontext_.get();
@@ -247,7 +248,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     } else {
         WeightContext* wc2 = pywc2->cppcontext_.get();
         if (pywc1 == nullptr) {
-            double d1 = PyFloat_AsDouble(f1);
             try {
                 wc3 = op.operate(d1, *wc2);
             } catch (...) {
diff --git a/xboa/core/utils/PythonComparator.hh b/xboa/core/utils/PythonComparator.hh
index 74b8f6a..e591803 100644
--- a/xboa/core/utils/PythonComparator.hh
+++ b/xboa/core/utils/PythonComparator.hh
@@ -63,12 +63,16 @@ bool PythonComparator::compare(double variable, double cut_value) const {
         return false;
     PyObject *args = Py_BuildValue("dd", variable, cut_value);
     PyObject *ret_bool = PyObject_CallObject(py_cmp_, args);
+    Py_XDECREF(args);
     if (ret_bool == NULL || !PyBool_Check(ret_bool)) {
+        Py_XDECREF(ret_bool);
         throw std::logic_error("Failed to call python comparator");
     }
     // I could check ret_bool using PyBool_Check I guess, and set a failflag in
     // the class
-    return ret_bool == Py_True;
+    bool is_true = ret_bool == Py_True;
+    Py_DECREF(ret_bool);
+    return is_true;
 }
 
 }
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index bd584b4..9153299 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -47,6 +47,7 @@ bool PyCppStringConverter::convert(PyObject* py_string,
         PyObject* bytes = PyUnicode_AsASCIIString(py_string);
         if (bytes) {
             *cpp_string = std::string(PyBytes_AsString(bytes));
+            Py_DECREF(bytes);
             return true;
         }
     }
@@ -137,13 +138,15 @@ bool CppPyMapToDictConverter<KEY, VALUE>::convert(
         PyErr_SetString(PyExc_RuntimeError, "Failed to allocate dict");
         return false;
     }
-    Py_INCREF(*py_dict);
     typename std::map<KEY, VALUE>::const_iterator it;
     for (it = std_map->begin(); it != std_map->end(); ++it) {
         PyObject *py_key, *py_value;
         if (key_c_->convert(&it->first, &py_key) &&
             value_c_->convert(&it->second, &py_value)) {
+            // does not steal references
             PyDict_SetItem(*py_dict, py_key, py_value);
+            Py_DECREF(py_key);
+            Py_DECREF(py_value);
         } else {
             return false;
         }
@@ -175,14 +178,16 @@ bool CppPyVectorToListConverter<ELEMENT>::convert(
     }
 
     *py_list = PyList_New(0);
-    Py_INCREF(*py_list);
     for (size_t i = 0; i < std_vector->size(); ++i) {
         ELEMENT element = std_vector->at(i);
         PyObject* py_element;
         if (!converter_->convert(&element, &py_element)) {
             return false;
         }
-        if (PyList_Append(*py_list, py_element) != 0) {
+        // does not steal a reference
+        int err = PyList_Append(*py_list, py_element);
+        Py_DECREF(py_element);
+        if (err != 0) {
             PyErr_SetString(PyExc_RuntimeError,
                             "Failed to append element");
             return false;
-- 
2.43.0


From 0ae096fdc905008f070ad7f94eaaba9d4e6f7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 026/120] fix: an out-of-range integer costs one hit rather
 than the whole file

---
 xboa/hit/factory/_line_factory_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index ebe451f..938f206 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -69,6 +69,10 @@ class LineFactoryBase(HitFactoryBase):
                                          str(key)+" with line "+str(line))
                 if xboa.hit.Hit._default_var_types[key] == float:
                     value *= common.units[format_units_dict[key]]
-                a_hit.set(key, value)
+                try:
+                    a_hit.set(key, value)
+                except IndexError: # e.g. integer is out of range
+                    raise xboa.hit.BadEventError("Failed to set "+str(key)+\
+                                                 " with line "+str(line))
         return a_hit
 
-- 
2.43.0


From 5119e43b183b1df3ce5affc37ac09297941fd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 027/120] fix: an unknown particle type costs one hit rather
 than the whole file

---
 xboa/hit/factory/_builtin_hit_factory.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/factory/_builtin_hit_factory.py b/xboa/hit/factory/_builtin_hit_factory.py
index dab85d3..571b179 100644
--- a/xboa/hit/factory/_builtin_hit_factory.py
+++ b/xboa/hit/factory/_builtin_hit_factory.py
@@ -15,6 +15,7 @@
 # <http://www.gnu.org/licenses/>.
 
 import xboa.common as common
+import xboa.hit
 from xboa.hit.factory import LineFactoryBase
 
 class BuiltinHitFactory(LineFactoryBase):
@@ -39,10 +40,14 @@ class BuiltinHitFactory(LineFactoryBase):
         hit = self._read_formatted(self.file_formats[format],
                                    self.file_units[format],
                                    self.filehandle, '')
-        if(format.find('icool') > -1 ):
-          hit.set('pid', common.icool_pid_to_pdg[hit.get('pid')])
-        if( format.find('mars') > -1 ):
-          hit.set('pid', common.mars_pid_to_pdg[hit.get('pid')])
+        try:
+          if(format.find('icool') > -1 ):
+            hit.set('pid', common.icool_pid_to_pdg[hit.get('pid')])
+          if( format.find('mars') > -1 ):
+            hit.set('pid', common.mars_pid_to_pdg[hit.get('pid')])
+        except KeyError:
+          raise xboa.hit.BadEventError("Did not recognise "+format+" particle "+\
+                                       "type "+str(hit.get('pid')))
         try:
           hit.set('mass', common.pdg_pid_to_mass[abs(hit.get('pid'))])
           hit.mass_shell_condition(self.file_mass_shell[format])
-- 
2.43.0


From efe00e95d71d82e6c2310b438a1fd67581546d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 028/120] fix: write each hit with a single call so that a
 failure leaves no partial line

---
 xboa/hit/_hit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index e33a3c3..cc71374 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -728,11 +728,13 @@ class Hit(object):
 
   #write formatted output - don't touch mass or pid beyond reading them
   def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
+    line = ''
     for key in format_list:
       if key == '': value = 0
       else:         value = Hit._default_var_types[key](self.get(key)/Common.units[ format_units_dict[key] ])
-      file_handle.write( str( value )+separator)
-    file_handle.write('\n')
+      line += str( value )+separator
+    # one write, so that a failure does not leave part of a line to be joined to the next hit
+    file_handle.write(line+'\n')
 
   # extract virtual hits from the root tree
   def __get_maus_root_virtual_hits(mc_event, track_number):
-- 
2.43.0


From f26feb6d182d9f85b1548757ca7f5eb3ca08abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 029/120] fix: report a failure to write to a file of hits

---
 xboa/hit/_hit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index cc71374..fd9a592 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -448,14 +448,20 @@ class Hit(object):
         current_hits.append(hit_in)
       else:
         for hit_out in current_hits:
-          try:    hit_out.write_builtin_formatted(file_type_string, filehandle)
-          except: pass
+          try:
+            hit_out.write_builtin_formatted(file_type_string, filehandle)
+          except OSError:
+            raise
+          except Exception:
+            print('Warning - failed to write ',hit_out)
         current_hits = [hit_in]
       old_hit = hit_in
     for hit_out in current_hits:
       try:
         hit_out.write_builtin_formatted(file_type_string, filehandle)
-      except:
+      except OSError:
+        raise
+      except Exception:
         print('Warning - failed to write ',hit_out)
     filehandle.close()
     return
-- 
2.43.0


From 82c4cdac3d1edaa4be004402e4398edda5ed552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 030/120] fix: write the length unit in g4beamline file headers

---
 xboa/hit/_hit.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index fd9a592..ce98ebe 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -489,8 +489,11 @@ class Hit(object):
     e.g. Hit.file_header('icool_for009', 'This is my for009 file') would set 'This is my for009 file' 
     as a user comment and return the header string
     """
-    if user_comment == None: file_header = Hit.__file_headers[file_type_string].replace(str('<user>'), str(Hit.__default_user_string))
-    else:                    file_header = Hit.__file_headers[file_type_string].replace(str('<user>'), str(user_comment))
+    header = Hit.__file_headers[file_type_string]
+    if file_type_string.find('g4beamline') > -1:
+      header = header.replace('<unit>', Hit.__file_units[file_type_string]['x'])
+    if user_comment == None: file_header = header.replace(str('<user>'), str(Hit.__default_user_string))
+    else:                    file_header = header.replace(str('<user>'), str(user_comment))
     return file_header
   file_header = staticmethod(file_header)
 
@@ -910,8 +913,8 @@ class Hit(object):
   __file_headers = {
     'icool_for003':'<user>\n0. 0. 0. 0. 0. 0. 0. 0.\n',
     'icool_for009':'#<user>\n#  units = [s] [m]  [GeV/c] [T] [V/m]\nevt par typ  flg   reg    time        x           y           z           Px          Py          Pz          Bx          By          Bz          wt          Ex          Ey          Ez          arclength   polX        polY        polZ\n',
-    'g4beamline_bl_track_file':'#BLTrackFile <user>\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n',
-    'g4beamline_bl_track_file_2':'#BLTrackFile <user>\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n',
+    'g4beamline_bl_track_file':'#BLTrackFile <user>\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n#<unit> <unit> <unit> MeV/c MeV/c MeV/c ns - - - - -\n',
+    'g4beamline_bl_track_file_2':'#BLTrackFile <user>\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n#<unit> <unit> <unit> MeV/c MeV/c MeV/c ns - - - - -\n',
     'ZGoubi':'',
     'Turtle':'',
     'MadX':'',
-- 
2.43.0


From 067d3dc2ce9a8313a2ad17ebe8c912e992905edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 031/120] fix: choose the number of bins of a 2d histogram

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 49a4d86..80ed629 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1539,7 +1539,7 @@ class Bunch:
       (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, 1)
     else:
       y_points                  = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, 2)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, n_dimensions=2)
       y_bins                    = Common.get_bin_edges(y_points, ny_bins, ymin, ymax)
     x_bins = Common.get_bin_edges(x_points, nx_bins, xmin, xmax)
     return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units)
-- 
2.43.0


From 682e798f448473b3a004b05789fe99830b787259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 032/120] fix: min_max ignores weights of the wrong length
 rather than extending the data

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 229b137..864f4fe 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -264,9 +264,9 @@ def min_max(x_float_list, weight_list=[], margin = 0.1, xmin=None, xmax=None):
   new_floats = x_float_list
   if len(weight_list) == len(x_float_list):
     new_floats =  []
-  for ind in range(len(weight_list)):
-    if weight_list[ind] > 1e-6:
-      new_floats.append(x_float_list[ind]) 
+    for ind in range(len(weight_list)):
+      if weight_list[ind] > 1e-6:
+        new_floats.append(x_float_list[ind]) 
   if len(new_floats) == 0: x = [0.,0.]
   else:                      x = [min(new_floats), max(new_floats)]
   delta = (x[1]-x[0])*margin
-- 
2.43.0


From 06bd86a4091b213ca7c8f5d5ce9304e28ada1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 033/120] fix: substitute in place, across lines and without
 changing line endings

---
 xboa/common/_common.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 864f4fe..c26c342 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -146,13 +146,14 @@ def substitute(file_name_in, file_name_out, switch_dict):
 
   e.g. common.substitute('file.in', 'file.out', {'energy':'momentum'})
   """
-  fin  = open(file_name_in,  'r')
-  fout = open(file_name_out, 'w')
-  for line in fin:
-    for key, value in switch_dict.items():
-      line = line.replace(str(key), str(value))
-    fout.write(line)
+  # read everything before opening the output, which may be the same file
+  fin  = open(file_name_in,  'r', newline='')
+  text = fin.read()
   fin.close()
+  for key, value in switch_dict.items():
+    text = text.replace(str(key), str(value))
+  fout = open(file_name_out, 'w', newline='')
+  fout.write(text)
   fout.close()
 
 wrapped_y_function = None
-- 
2.43.0


From 0f516e8e4c8c285324b8a8a2ddac50e8d0d7b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 034/120] fix: make_matplot_graph leaves the caller's data
 alone and honours sort

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index c26c342..368dad5 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -627,11 +627,11 @@ def make_matplot_graph(x_float_list, x_axis_string, y_float_list, y_axis_string,
   pyplot.figure(figure_index)
   if(len(x_float_list) == 0 or len(x_float_list) != len(y_float_list)):
     raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
-  multilist = [x_float_list, y_float_list]
-  multisort(multilist)
+  multilist = [list(x_float_list), list(y_float_list)]
+  if sort: multisort(multilist)
   x_min_max = min_max(multilist[0], margin=rg.graph_margin)
   y_min_max = min_max(multilist[1], margin=rg.graph_margin)
-  myplot = pyplot.plot(x_float_list, y_float_list)
+  myplot = pyplot.plot(multilist[0], multilist[1])
   pyplot.xlabel(x_axis_string)
   pyplot.ylabel(y_axis_string)
   pyplot.xlim  (x_min_max[0], x_min_max[1])
-- 
2.43.0


From 1366ec215cb3a29c38b67d0bbb900b62f4e83c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 035/120] fix: label the y axis of a scatter graph

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 368dad5..8baa0c7 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -721,7 +721,7 @@ def make_matplot_scatter(x_float_list, x_axis_string, y_float_list, y_axis_strin
     raise IndexError('Attempt to draw histogram with no x-points')
   hist = pyplot.scatter(x_float_list, y_float_list, s=1)
   pyplot.xlabel(x_axis_string)
-  pyplot.ylabel(x_axis_string)
+  pyplot.ylabel(y_axis_string)
   return hist
 
 def wait_for_root():
-- 
2.43.0


From 08ca853e631d8d0d74f6e0f6dbfe0c09befbb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 036/120] fix: pickle tracking processes in binary mode and
 close the files

---
 xboa/tracking/tracking_process/_bsub_process.py      |  2 +-
 xboa/tracking/tracking_process/_tracking_process.py  | 12 ++++++------
 .../tracking_process/xboa_tracking_process.py        |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index eb455ae..90c0e24 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -46,7 +46,7 @@ class BSubProcess(TrackingProcess):
         self.queue = queue
         self.job_time = job_time
         out_path = os.path.join(self.out_dir, self.pickle_jar)
-        process_out = open(out_path, "w")
+        process_out = open(out_path, "wb")
         pickle.dump(self, process_out)
         process_out.close()
 
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index cde9ce5..d1f9f90 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -69,8 +69,8 @@ class TrackingProcess(object):
         Set the hit list over which the TrackingProcess should run
         """
         self.hit_list = hit_list
-        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "w")
-        pickle.dump(self, process_out)
+        with open(os.path.join(self.out_dir, self.pickle_jar), "wb") as process_out:
+            pickle.dump(self, process_out)
 
     def start(self):
         """
@@ -139,8 +139,8 @@ class TrackingProcess(object):
         if not os.path.exists(return_path):
             raise RuntimeError("The TrackingProcess finished without leaving "+\
                                "a return value")
-        fin = open(return_path)
-        self.return_value = pickle.load(fin)
+        with open(return_path, "rb") as fin:
+            self.return_value = pickle.load(fin)
         return self.return_value
 
     @classmethod
@@ -149,8 +149,8 @@ class TrackingProcess(object):
         Instantiate a TrackingProcess from pickle directory
         - pickle_dir: directory where pickled data is stored.
         """
-        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "r")
-        process = pickle.load(fin)
+        with open(os.path.join(pickle_dir, cls.pickle_jar), "rb") as fin:
+            process = pickle.load(fin)
         return process
 
     # I know these names are inscrutable - but I couldn't resist. I like
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 494b9e4..170d49a 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -40,15 +40,15 @@ def main():
     """Run the TrackingProcess"""
     args = parse_args()
     out_dir = args.out_dir 
-    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar))
-    tracking_process = pickle.load(fin)
+    with open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb") as fin:
+        tracking_process = pickle.load(fin)
     # clear any old data; always want to get new data
     if os.path.exists(TrackingProcess.pickle_sandwich):
         os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "w")
-    pickle.dump(hits, fout)
+    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
+        pickle.dump(hits, fout)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 0dd2b8c949479babbb492d6a942e9d2a18d6b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 037/120] fix: a tracking process never returns a partial
 result or that of an earlier run

---
 xboa/tracking/tracking_process/_bsub_process.py        |  1 +
 xboa/tracking/tracking_process/_this_node_process.py   |  1 +
 xboa/tracking/tracking_process/_tracking_process.py    | 10 ++++++++++
 .../tracking/tracking_process/xboa_tracking_process.py | 10 ++++++----
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index 90c0e24..48db4da 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -57,6 +57,7 @@ class BSubProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self._clear_return_value()
         log = os.path.join(self.out_dir, self.std_out)
         err = os.path.join(self.out_dir, self.std_err)
         proc_output = subprocess.check_output(
diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index 3d9fda2..8c5f296 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -50,6 +50,7 @@ class ThisNodeProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self._clear_return_value()
         self.proc = subprocess.Popen([self.run_executable,
                                       "--out-dir", self.out_dir])
         self.pid = self.proc.pid
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index d1f9f90..903d8bf 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -64,6 +64,16 @@ class TrackingProcess(object):
         self.out_dir = tempfile.mkdtemp(dir = self.tmp_dir)
         return self.out_dir
 
+    def _clear_return_value(self):
+        """
+        Forget the outcome of any earlier run
+        """
+        self.exitcode = None
+        self.return_value = None
+        return_path = os.path.join(self.out_dir, self.pickle_sandwich)
+        if os.path.exists(return_path):
+            os.remove(return_path)
+
     def set_hit_list(self, hit_list):
         """
         Set the hit list over which the TrackingProcess should run
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 170d49a..e89163e 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -43,12 +43,14 @@ def main():
     with open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb") as fin:
         tracking_process = pickle.load(fin)
     # clear any old data; always want to get new data
-    if os.path.exists(TrackingProcess.pickle_sandwich):
-        os.remove(TrackingProcess.pickle_sandwich)
-    # run the data and dump the output
+    return_path = os.path.join(out_dir, TrackingProcess.pickle_sandwich)
+    if os.path.exists(return_path):
+        os.remove(return_path)
+    # run the data and dump the output; it gets its name only once it is complete
     hits = tracking_process.run()
-    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
+    with open(return_path+".tmp", "wb") as fout:
         pickle.dump(hits, fout)
+    os.replace(return_path+".tmp", return_path)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 60803bfb7669496095ebaf5de3ddd55536dde94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 038/120] fix: give new hits to a tracking process that has
 been run before

---
 xboa/tracking/tracking_process/_this_node_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index 8c5f296..2ecc515 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -43,6 +43,14 @@ class ThisNodeProcess(TrackingProcess):
         TrackingProcess.__init__(self, tracking)
         self.proc = None
 
+    def __getstate__(self):
+        """
+        The subprocess can't be pickled or copied; everything else is
+        """
+        state = dict(self.__dict__)
+        state["proc"] = None
+        return state
+
     def start(self):
         """
         Start the tracking by opening a subprocess and calling run()
-- 
2.43.0


From a63b9fd3bccd4165bb9f4a0e565f90c58e42f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 039/120] fix: split hits between tracking processes

---
 xboa/tracking/_multitrack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index db7b933..6f35826 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -65,7 +65,7 @@ class MultiTrack(TrackingBase):
         self.job_list = []
         self.last = []
         n_hits = len(hit_list)
-        n_hits_per_process = n_hits/int(self.n_processes)
+        n_hits_per_process = n_hits//int(self.n_processes)
         remainder = n_hits % int(self.n_processes)
         
         for i in range(self.n_processes):
-- 
2.43.0


From e05ba06a644c6744c39af274686eaa3602b525bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 040/120] fix: MultiTrack.track_one tracks the hit

---
 xboa/tracking/_multitrack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index 6f35826..c713f7e 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -87,7 +87,9 @@ class MultiTrack(TrackingBase):
         """
         Just call track_one on the hit
         """
-        self.tracking.track_one(a_hit)
+        hit_list = self.tracking_job.tracking.track_one(a_hit)
+        self.last = [hit_list]
+        return hit_list
 
     def track_many(self, hit_list):
         """
-- 
2.43.0


From 0cac13d5e5c3d40d31880503c69eb16ee1d2ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 041/120] fix: read the output of the batch queue commands as
 text

---
 xboa/tracking/tracking_process/_bsub_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index 48db4da..54753f8 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -67,7 +67,8 @@ class BSubProcess(TrackingProcess):
                                       '-o', log,
                                       '-e', err,
                                       self.run_executable,
-                                      "--out-dir", self.out_dir])
+                                      "--out-dir", self.out_dir],
+                                     universal_newlines=True)
         start_index = proc_output.find("<")+1
         end_index = proc_output.find(">")
         self.pid = int(proc_output[start_index:end_index])
@@ -78,7 +79,8 @@ class BSubProcess(TrackingProcess):
         """
         if self.pid == None:
             return False
-        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)])
+        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)],
+                                              universal_newlines=True)
         status = self._get_substr(proc_output, 'Status <', '>')
         if status in ["PEND", "RUN", "WAIT"]:
             return True
-- 
2.43.0


From 31d6671d7267281e052cec8cc0c513851340d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 042/120] fix: RefinePeakFinder uses whole numbers of points

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ed74369..ede7418 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -133,7 +133,7 @@ class RefinePeakFinder(object):
                     fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
                 except Exception:
                     break
-            delta_fit /= 2
+            delta_fit //= 2
             fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
             if self.draw:
                 canvas = common.make_root_canvas("values")
-- 
2.43.0


From bb33e9b445ec82103db52fdbbf72a0ca26fa6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 043/120] fix: RefinePeakFinder treats each peak on its own

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ede7418..102e876 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -123,9 +123,9 @@ class RefinePeakFinder(object):
         # chi2 gives estimate of fit errors
         this_max_delta = min(len(data), self.max_delta)
         peak_with_errors = []
-        fit_quality = 0.
         fail_list = []
         for peak in self.peak_list:
+            fit_quality = 0.
             delta_fit = self.delta_seed
             while fit_quality < 1. and delta_fit < this_max_delta:
                 delta_fit *= 2
-- 
2.43.0


From e10aac9972b958142d257e20d8f9288d20ca91d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 044/120] fix: RefinePeakFinder never uses fewer points than
 the seed range

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 102e876..9a9e2eb 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -133,7 +133,7 @@ class RefinePeakFinder(object):
                     fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
                 except Exception:
                     break
-            delta_fit //= 2
+            delta_fit = max(delta_fit//2, self.delta_seed)
             fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
             if self.draw:
                 canvas = common.make_root_canvas("values")
-- 
2.43.0


From b3f2ee4ad124505dc50038db6bf7fb08bc9a7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 045/120] fix: RefinePeakFinder compares with the data about
 the peak, also near the end of the data

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 9a9e2eb..68cdafb 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -107,7 +107,9 @@ class RefinePeakFinder(object):
         graph.Fit(fit, 'QNO')
         delta_list = [y_list[i]-fit.Eval(x) for i, x in enumerate(x_list)]
         sigma_delta = self.sigma(delta_list)
-        sigma_bite = self.sigma(y_list[delta_fit-delta_bite:delta_fit+delta_bite])
+        centre = peak_index-x_min
+        bite = y_list[max(centre-delta_bite, 0):centre+delta_bite+1]
+        sigma_bite = self.sigma(bite)
         # fit_quality = (s(residual)/s(data)-1.)*sqrt(n)
         # where n is the number in the s(data) calculation
         fit_quality = (sigma_delta/sigma_bite-1.)*delta_bite**0.5
-- 
2.43.0


From f4a2cde269cd5031b131530df6a20a88502493db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 046/120] fix: RefinePeakFinder returns the index nearest to
 the peak

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 68cdafb..4c75f01 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -201,7 +201,7 @@ class RefinePeakFinder(object):
         peak in data
         """
         peak_error_list = self.find_peak_errors(data)
-        peak_list = [int(x["x"]) for x in peak_error_list]
+        peak_list = [int(round(x["x"])) for x in peak_error_list]
         return peak_list
 
     fit_list = []
-- 
2.43.0


From bdf373bd6ba2334a3d25e2b3d4ec114d03086448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 047/120] fix: make_root_graph takes any sequence of numbers

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 8baa0c7..3370d1d 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -586,8 +586,8 @@ def make_root_graph(name_string, x_float_list, x_axis_string, y_float_list, y_ax
   Return value is a tuple of (histogram, graph)
   """
   config.has_root()
-  x_float_list = copy.deepcopy(x_float_list)
-  y_float_list = copy.deepcopy(y_float_list)
+  x_float_list = list(x_float_list)
+  y_float_list = list(y_float_list)
   if(len(x_float_list) == 0 or len(x_float_list) != len(y_float_list)):
     raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
 #  name_string += " "+str(len(_hist_persistent))
-- 
2.43.0


From 9b989b173104ba25e955c0a62e1c87d274f53866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 048/120] fix: RefinePeakFinder starts each fit afresh

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 4c75f01..4813ab0 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -103,6 +103,7 @@ class RefinePeakFinder(object):
         for i in range(3):
             fit.ReleaseParameter(i)
             fit.SetParameter(i, 0.)
+            fit.SetParError(i, 0.) # else an earlier fit sets the step size
         #QNOS: Quiet, Do not store graphics, Dont draw
         graph.Fit(fit, 'QNO')
         delta_list = [y_list[i]-fit.Eval(x) for i, x in enumerate(x_list)]
-- 
2.43.0


From 0e50a63443510b3a2cb94885b2f3f207d5b8a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 049/120] fix: CutSmoothing uses whole windows

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 83354d6..615fab7 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -72,13 +72,13 @@ class CutSmoothing(object):
                                  " not equal to "+str(n_signal))
         will_cut_data = [False]*n_signal
 
-        for i in range(n_signal/self.step):
+        for i in range(n_signal//self.step):
             data_mean = numpy.mean(signal[i*self.step:(i+1)*self.step])
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
-        for j in range((n_signal/self.step)*self.step, n_signal):
+        for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         table_out = copy.deepcopy(table)
-- 
2.43.0


From b359cb2854d168595681ae90034909c329d8bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 050/120] fix: CutSmoothing uses all of a signal shorter than
 the window

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 615fab7..b531efb 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -77,7 +77,7 @@ class CutSmoothing(object):
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-        data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
+        data_mean = numpy.mean(signal[max(n_signal-self.step, 0):n_signal])
         for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-- 
2.43.0


From 088902c98d9f98dc45a2901f93a0e050e89b2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 051/120] fix: FFTTuneFinder leaves the caller's data alone

---
 xboa/algorithms/tune/_fft_tune.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 2198b44..05acd7b 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -78,12 +78,12 @@ class FFTTuneFinder(object):
 
         Returns the principle Fourier frequency that is not 0.
         """
-        if self.u == None:
+        if self.u is None:
             raise ValueError("No data set for Fourier Transform")
         if len(self.u) % 2 == 0:
-            if self.up != None:
-                del self.up[-1]
-            del self.u[-1]
+            if self.up is not None:
+                self.up = self.up[:-1]
+            self.u = self.u[:-1]
         if tune_tolerance == None:
             tune_tolerance = 1./len(self.u)/100.
         self._fft_find_peaks()
-- 
2.43.0


From c38dbf56ce94ceea7d491d4adac4e475c2812102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 052/120] fix: FFTTuneFinder uses the frequencies of the
 Fourier transform

---
 xboa/algorithms/tune/_fft_tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 05acd7b..2816ce5 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -252,7 +252,7 @@ class FFTTuneFinder(object):
         fft = numpy.fft.rfft(numpy.array(self.u))
         k_list = [[float(numpy.real(z)), float(numpy.imag(z))] for z in fft]
         self.k_mag_y = [(z[0]**2+z[1]**2)**0.5 for z in k_list]
-        self.k_mag_x = [i/2./float(len(k_list)) for i, z in enumerate(k_list)]
+        self.k_mag_x = [i/float(len(self.u)) for i, z in enumerate(k_list)]
         self._find_peaks()
 
     def _find_peaks(self):
@@ -336,7 +336,7 @@ class FFTTuneFinder(object):
         for m, a_m in enumerate(self.u):
             if self.use_hanning_filter:
                 hanning = 2.*math.sin(math.pi*m/n)**2.
-            f = 2.*math.pi*m*k_x*(n+1)/n
+            f = 2.*math.pi*m*k_x
             dy = hanning*a_m*math.cos(f)
             dz = hanning*a_m*math.sin(f)
             y_point += dy
-- 
2.43.0


From 02c66379adf5a2c7913514d43269cd8ed95a3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 053/120] fix: FFTTuneFinder forgets the peaks of earlier data

---
 xboa/algorithms/tune/_fft_tune.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 2816ce5..21ec7e2 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -260,9 +260,7 @@ class FFTTuneFinder(object):
         Run the peak finder
         """
         peak_index_list = sorted(self._peak_finder.find_peaks(self.k_mag_y))
-        if len(peak_index_list) == 0:
-            return
-        if peak_index_list[0] == 0:
+        if len(peak_index_list) > 0 and peak_index_list[0] == 0:
             peak_index_list.pop(0)
         self.peak_x_list = [self.k_mag_x[i] for i in peak_index_list]
         self.peak_y_list = [self.k_mag_y[i] for i in peak_index_list]
-- 
2.43.0


From 1ba83bb7b53142cce81ddf2c8d0b3a1f55165386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 054/120] fix: DPhiTuneFinder forgets the phase advances of
 earlier data

---
 xboa/algorithms/tune/_dphi_tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/tune/_dphi_tune.py b/xboa/algorithms/tune/_dphi_tune.py
index d449e4b..c991a11 100644
--- a/xboa/algorithms/tune/_dphi_tune.py
+++ b/xboa/algorithms/tune/_dphi_tune.py
@@ -70,6 +70,7 @@ class DPhiTuneFinder(object):
         points = zip(self.u, self.up)
         plot_x, plot_y = [], []
         self.point_circles = []
+        self.dphi = []
         for point in points:
             point_array = numpy.array([point[0]-self.centre[0],
                                     point[1]-self.centre[1]])
-- 
2.43.0


From 61fb559ca6b213007901b3e351014a36a969e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 055/120] fix: fit_ellipse iterates until the selection
 settles, whatever the size of the ellipse

---
 xboa/common/_common.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 3370d1d..9f59d27 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -1008,21 +1008,16 @@ def fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations = 10, ve
     particle vector and V is the defining matrix.
     """
     n_points = len(points)
-    old_det = 1.
     mean, cov = numpy.ones([2]), numpy.ones([2, 2])
+    old_cut = None
     in_cut = [True for i in range(n_points)]
     if weights == None:
         weights = [1.,]*n_points
     iterations = 0
     try:
-        while abs(numpy.linalg.det(cov)-old_det) > float_tolerance and \
-              iterations < max_number_of_iterations:
+        while in_cut != old_cut and iterations < max_number_of_iterations:
             iterations += 1
-            my_sum = 0
-            for i in in_cut:
-                if i == True:
-                    my_sum += 1
-            old_det = numpy.linalg.det(cov)
+            old_cut = in_cut
             mean, cov = _get_fit_ellipse_covariance_matrix(points, weights, in_cut)
             mat_inv = numpy.linalg.inv(cov)
             in_cut = _update_fit_ellipse_cut(points, mat_inv, mean, eps_cut)
-- 
2.43.0


From de3d067192429f100cedf721ee2df5ba30a7a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 056/120] fix: MultipoleWeighting solves for the target moments

---
 xboa/bunch/weighting/_multipole_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index cdaa280..31399e5 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -122,7 +122,7 @@ class MultipoleWeighting(object):
                 list_ij = [list_i[i1]+list_j[i1] \
                                            for i1, index_i in enumerate(list_i)]
                 m_matrix[i, j] = \
-                      self._v_f(list_ij) - self._v_f(list_i) * self._v_g(list_j)
+                      self._v_f(list_ij) - self._v_g(list_i) * self._v_f(list_j)
         m_inverse = numpy.linalg.inv(m_matrix)
         u_vector = numpy.zeros([len(self.v_g_index_by_power)])
         for i, list_i in enumerate(self.v_g_index_by_power):
-- 
2.43.0


From 78f2baa0519130ca7178ff38aaa7dd4fb1a3529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 057/120] fix: MultipoleWeighting target ellipse is about the
 target mean

---
 xboa/bunch/weighting/_multipole_weighting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 31399e5..5e8dc0e 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -172,7 +172,8 @@ class MultipoleWeighting(object):
               indices.append([0]*n_vars)
               indices[-1][i] += 1
               indices[-1][j] += 1
-              moments.append(target_ellipse[i, j])
+              # the target moments are about 0, the ellipse is about the mean
+              moments.append(target_ellipse[i, j]+target_mean[i]*target_mean[j])
         self.set_target_moments(indices, moments)
 
 def index_by_power():
-- 
2.43.0


From b14f7fea37a6cce298524ec95c316b9e3bc3db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 058/120] fix: MultipoleWeighting refuses target moments beyond
 maximum_pole

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 5e8dc0e..3878726 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -135,6 +135,10 @@ class MultipoleWeighting(object):
         Get the element in v_f corresponding to index_list
         """
         index = bisect.bisect_left(self.v_f_index_by_power, index_list)
+        if index == len(self.v_f_index_by_power) or \
+           self.v_f_index_by_power[index] != index_list:
+            raise ValueError("Moments "+str(index_list)+" are needed, which "+\
+                             "is beyond maximum_pole "+str(self.maximum_moment))
         v_f_ = self.v_f_list[index]
         return v_f_
 
-- 
2.43.0


From 1a637c443650266e828bd5a9ebb14d1991df5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 059/120] fix: MultipoleWeighting refuses any repeated target
 moment

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 3878726..7fc7848 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -102,8 +102,8 @@ class MultipoleWeighting(object):
                 if type(index) != type(0):
                     raise ValueError("Index type is non-integer")
 
-        for i, item in enumerate(moment_index_list[1:]):
-            if item == moment_index_list[i]:
+        for i, item in enumerate(moment_index_list):
+            if item in moment_index_list[:i]:
                raise ValueError("Indices should be unique")
         # zip and sort
         sorted_list = sorted(zip(moment_index_list, moment_list))
-- 
2.43.0


From 947338ff23b31604b17a6603b491f1a6508435f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 060/120] fix: DecoupledTransferMatrix counts planes with an
 integer and refuses odd sizes

---
 xboa/algorithms/decoupled_transfer_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 8fd19eb..011886d 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -25,14 +25,14 @@ class DecoupledTransferMatrix(object):
         self.m = numpy.array(transfer_matrix)
         if self.m.shape[0] != self.m.shape[1]:
             raise ValueError("Transfer matrix was not square")
-        if (self.m.shape[0]/2)*2 != self.m.shape[0]:
+        if self.m.shape[0] % 2 != 0:
             raise ValueError("Transfer matrix had odd size (should be even)")
         det_m = numpy.linalg.det(self.m)
         if abs(det_m - 1) > self.det_tolerance:
             raise ValueError("Transfer matrix determinant deviated from 1 by "+\
               str(det_m - 1)+" - DecoupledTransferMatrix.det_tolerance was "+\
               str(self.det_tolerance) )
-        self.dim = self.m.shape[0]/2
+        self.dim = self.m.shape[0]//2
         self.m_evalue, self.m_evector = numpy.linalg.eig(self.m)
         self.t_evector = None
         self.t_evalue = None
-- 
2.43.0


From 46b8ad79d23506cf7f28bdbeb366dfe99fc0e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 061/120] fix: DecoupledTransferMatrix uses the eigenvector of
 the plane for its beta and alpha

---
 xboa/algorithms/decoupled_transfer_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 011886d..7f3e27d 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -52,7 +52,7 @@ class DecoupledTransferMatrix(object):
         self.v_t = numpy.zeros([self.dim*2, self.dim*2]) # real
         for i in range(self.dim):
             j = 2*i
-            evector = numpy.transpose(self.m_evector)[i]
+            evector = numpy.transpose(self.m_evector)[j]
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
             try:
-- 
2.43.0


From 2f5174285dd4ade685937fcefaa86579b9e9ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 062/120] fix: DecoupledTransferMatrix ellipses have the
 requested eigenemittances

---
 xboa/algorithms/decoupled_transfer_matrix.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 7f3e27d..49451da 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -53,6 +53,12 @@ class DecoupledTransferMatrix(object):
         for i in range(self.dim):
             j = 2*i
             evector = numpy.transpose(self.m_evector)[j]
+            # normalise so that V_M has the eigenemittances that are asked for
+            norm = sum([numpy.imag(numpy.conj(evector[k])*evector[k+1])
+                                           for k in range(0, self.dim*2, 2)])
+            evector = evector/abs(norm)**0.5
+            self.m_evector[:, j] = evector
+            self.m_evector[:, j+1] = numpy.conj(evector)
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
             try:
-- 
2.43.0


From 1ffae57e0bf87c1a4ec87929609ba82f5d2b0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 063/120] fix: DecoupledTransferMatrix handles eigenvectors
 with no area in their plane

---
 xboa/algorithms/decoupled_transfer_matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 49451da..b449aa7 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -61,11 +61,12 @@ class DecoupledTransferMatrix(object):
             self.m_evector[:, j+1] = numpy.conj(evector)
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
-            try:
+            area = numpy.imag(numpy.conj(evector[j])*evector[j+1])
+            if abs(area) > 1e-6:
                 ratio = evector[j+1]/evector[j]
                 beta_i = 1./numpy.imag(ratio)
                 alpha_i = -beta_i * numpy.real(ratio)
-            except FloatingPointError:
+            else: # the eigenvector has no ellipse of its own in this plane
                 beta_i = -1.
                 alpha_i = 0.
             phase_i = numpy.angle(self.m_evalue[j])
-- 
2.43.0


From 22001ce0cacdbe483e1aa01e8e049c57eb9bc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 064/120] fix: VoronoiWeighting takes a mean

---
 xboa/bunch/weighting/_voronoi_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index ee23c01..07c95b4 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -99,7 +99,7 @@ class VoronoiWeighting(object):
         config.has_numpy()
         config.has_scipy()
         self.dim = len(weight_variables)
-        if weight_mean == None:
+        if weight_mean is None:
             weight_mean = numpy.array([0.]*self.dim)
         if (self.dim,) != numpy.shape(weight_mean):
             raise ValueError("weight_mean shape "+\
-- 
2.43.0


From 2adfed9c8f9cd1f6cc59ae27a57ff1e8f0e6190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 065/120] fix: VoronoiWeighting makes a list of points

---
 xboa/bunch/weighting/_voronoi_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 07c95b4..4cb51ff 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -144,7 +144,7 @@ class VoronoiWeighting(object):
         Returns None (the bunch is weighted "in-place")
         """
         self.real_points = bunch.list_get_hit_variable(self.weight_variables)
-        self.real_points = zip(*tuple(self.real_points))
+        self.real_points = list(zip(*tuple(self.real_points)))
         self.real_points = numpy.array(self.real_points)
         if self.voronoi_bound != None:
             self.real_points, not_cut = \
-- 
2.43.0


From aa3d7c92c4f9254300e339504f7f513a95bd3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 066/120] fix: HullContent calculates tile contents in python 3

---
 xboa/bunch/weighting/_hull_content.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 392ac42..4994c15 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -18,6 +18,7 @@
 HullContent class should be imported directly from xboa.bunch.weighting
 """
 
+import math
 import multiprocessing
 import signal
 import os
@@ -88,7 +89,7 @@ def _get_cm_matrix(simplex, triangulation, dimension):
             point_i = triangulation.points[vertex_i]
             point_j = triangulation.points[vertex_j]
             square = [(point_i[d] - point_j[d])**2 \
-                                             for d in xrange(dimension)]
+                                             for d in range(dimension)]
             length_sq = sum(square)
             elements[i+1, j+1] = length_sq
             elements[j+1, i+1] = length_sq
@@ -109,7 +110,7 @@ def _tile_content(args):
         content = 0.
         triangulation = scipy.spatial.Delaunay(points)
         coefficient = (-1)**(dimension+1)/2.**dimension
-        coefficient /= numpy.math.factorial(dimension)**2.
+        coefficient /= math.factorial(dimension)**2.
         for simplex in triangulation.simplices:
             elements = _get_cm_matrix(simplex, triangulation, dimension)
             det = numpy.linalg.det(elements)
-- 
2.43.0


From 83c881a8042d0f056d9608d8cc4fc2cc822c1ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 067/120] fix: HullContent takes any list of regions

---
 xboa/bunch/weighting/_hull_content.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 4994c15..5016736 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -65,14 +65,14 @@ class HullContent(object):
         """
         Recalculate the tile content list
         """
-        job_list = [None]*len(self.region_list)
+        job_list = []
         for i in self.region_list:
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             points = numpy.array([self.tesselation.vertices[j] for j in region])
-            job_list[i] = (region, points)
+            job_list.append((region, points))
         self.tile_content_list = self.pool.map(_tile_content, job_list)
 
 def _init_worker():
-- 
2.43.0


From 7644afaffdc588bb792efde174f96cbebf988d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 068/120] fix: closed orbit generators end without an error

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py      | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 7064b72..5421773 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -74,7 +74,7 @@ class EllipseClosedOrbitFinder(object):
         while True:
             for key in keys:
                 if step[key] >= step_end_dict[key]:
-                    raise StopIteration("Run out of steps at "+json.dumps(step))
+                    return # run out of steps
                 next_hit[key] = step[key]
             hit_list = self.tracking.track_one(next_hit)
             x_list = [[hit[key] for key in keys] for hit in hit_list]
@@ -128,20 +128,15 @@ class EllipseClosedOrbitFinder(object):
                                                           self.eps_max, True)
             except  (numpy.linalg.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
-                    raise StopIteration("Closed orbit has reached numerical "+\
-                                        "precision limit. Nice!")
+                    return # reached numerical precision limit. Nice!
                 else:
                     raise ValueError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-                raise StopIteration("Closed orbit finder has reached "+\
-                                    "convergence limit. Tracking noise is "+\
-                                    "greater than ellipse size.")
+                return # tracking noise is greater than ellipse size
             for i, var in enumerate(keys):
                 next_hit[var] = my_co.centre[i]
-        raise StopIteration("Closed orbit finder has finished iterating without converging.")
- 
 
     def check_closed_orbit(self, test_variable_dict, number_of_points):
         """
-- 
2.43.0


From 4417daaf01ee1bbe5c70f2c7f378e27bda21d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 069/120] fix: closed orbit finder iterates without limit

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 5421773..b6c700b 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -120,7 +120,7 @@ class EllipseClosedOrbitFinder(object):
         next_hit = self.seed.deepcopy()
         noise_mean = None
         iteration = 0
-        while iteration < max_iterations or max_iterations == None:
+        while max_iterations == None or iteration < max_iterations:
             iteration += 1
             x_list = self._get_points(keys, next_hit, number_of_points)
             try:
-- 
2.43.0


From e588aeff78118f3e471c3801723ffd7d3909bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 070/120] fix: closed orbit scan carries on when an inner
 variable ends on a step

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index b6c700b..67eeb30 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -84,7 +84,7 @@ class EllipseClosedOrbitFinder(object):
             i = len(keys)-1
             key = keys[i]
             step[key] += step_size_dict[key]
-            while step[key] > step_end_dict[key] and i > 0:
+            while step[key] >= step_end_dict[key] and i > 0:
                 step[key] = step_start_dict[key]
                 i -= 1
                 key = keys[i]
-- 
2.43.0


From 7b3e3792485b835d268202a8a95aa863a855eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 071/120] fix: closed orbit finder raises RuntimeError when
 nothing is tracked

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 67eeb30..34afca8 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -173,7 +173,7 @@ class EllipseClosedOrbitFinder(object):
             hit_list.append(next_hit)
         while len(hit_list) < number_of_points:
             hit_list += self.tracking.track_one(next_hit)[1:]
-            if hit_list[-1] == next_hit:
+            if len(hit_list) == 0 or hit_list[-1] == next_hit:
                 raise RuntimeError("Tracking failed to generate an ellipse")
             next_hit = hit_list[-1]
         x_list = [[hit[var] for var in keys] for hit in hit_list]
-- 
2.43.0


From 5fb6cb527d347176416e7818779c12e80f0680dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 072/120] fix: reading several MAUS JSON types reads the file
 for each of them

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 80ed629..8fd9d9a 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -458,6 +458,7 @@ class Bunch:
     json_file = open(file_name, 'r')
     hits = []
     for maus_type in list_of_maus_types:
+        json_file.seek(0)
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
-- 
2.43.0


From 92d670408c62a5357a24fc6fad3d69673e1d0e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 073/120] fix: the number of MAUS JSON hits counts selected
 hits of all files

---
 xboa/bunch/_bunch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 8fd9d9a..8fb3f21 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -320,10 +320,11 @@ class Bunch:
           print("Loading", file_name)
           hit_list += Bunch.read_maus_json_file(
                                           file_name,
-                                          number_of_hits,
                                           list_of_maus_types=[file_type_string]
                                   )
       hit_list = [hit for hit in hit_list if test_function == None or test_function(hit)]
+      if number_of_hits >= 0:
+          hit_list = hit_list[:number_of_hits]
       return Bunch.new_from_hits(hit_list)
     bunch = Bunch()
     bad_event_counter = 0
-- 
2.43.0


From 25f2e6d395507c07c12c39381987059b8fe28532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 074/120] fix: make_matplot_histogram draws the last bin and
 empty histograms

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 9f59d27..7a5d9af 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -549,8 +549,8 @@ def make_matplot_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[
     new_bins  = []
     new_n     = []
     index     = 0
-    while(abs(n[index])<1.e-9 and index < len(n)): index += 1
-    for i in range(index, len(n)-1):
+    while(index < len(n) and abs(n[index])<1.e-9): index += 1
+    for i in range(index, len(n)):
       new_bins.append((my_bins[i] + my_bins[i+1])/2.)
       new_n.append(n[i])
     hist = pyplot.plot(new_bins, new_n)
-- 
2.43.0


From e3b878d854c0bb18aca9c53a9ea981d5263baedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 075/120] fix: make_matplot_histogram adds the weights in a
 cell

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 7a5d9af..6940d99 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -556,7 +556,7 @@ def make_matplot_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[
     hist = pyplot.plot(new_bins, new_n)
     pyplot.xlabel(x_axis_string)
   else:
-    if len(weight_list) == len(x_float_list): hist = pyplot.hexbin(x_float_list, y_float_list, weight_list, gridsize=(n_x_bins,n_y_bins))
+    if len(weight_list) == len(x_float_list): hist = pyplot.hexbin(x_float_list, y_float_list, weight_list, gridsize=(n_x_bins,n_y_bins), reduce_C_function=numpy.sum)
     else:                                     hist = pyplot.hexbin(x_float_list, y_float_list, gridsize=(n_x_bins,n_y_bins))
     pyplot.xlabel(x_axis_string)
     pyplot.ylabel(y_axis_string)
-- 
2.43.0


From 86e95d81e3746c87e8729cda08e44f71e4a52a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 076/120] fix: make_matplot_multigraph leaves the caller's
 lists unsorted

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 6940d99..800b895 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -693,7 +693,7 @@ def make_matplot_multigraph(x_float_list_of_lists, x_axis_string, y_float_list_o
   x_min_max = min_max(total_x_list, margin=rg.graph_margin)
   y_min_max = min_max(total_y_list, margin=rg.graph_margin)
   for index in range( len(x_float_list_of_lists) ):
-    multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+    multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
     multisort(multilist)
     myplot = pyplot.plot(multilist[0], multilist[1])
   pyplot.xlabel(x_axis_string)
-- 
2.43.0


From 46a734182db21add1b7d74c62142eadbf1ba2599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 077/120] fix: make_matplot_scatter returns the figure that its
 caller needs

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 800b895..23c774a 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -719,10 +719,10 @@ def make_matplot_scatter(x_float_list, x_axis_string, y_float_list, y_axis_strin
   pyplot.figure(figure_index)
   if(len(x_float_list) == 0):
     raise IndexError('Attempt to draw histogram with no x-points')
-  hist = pyplot.scatter(x_float_list, y_float_list, s=1)
+  pyplot.scatter(x_float_list, y_float_list, s=1)
   pyplot.xlabel(x_axis_string)
   pyplot.ylabel(y_axis_string)
-  return hist
+  return figure_index
 
 def wait_for_root():
   """
-- 
2.43.0


From 7e71bf56dbc93bd2b59f2f3a41b24694ca035241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 078/120] fix: make_histogram draws the last bin and empty
 histograms

---
 xboa/common/matplotlib_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index df4bf0c..d52fe05 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -60,9 +60,9 @@ def make_histogram(x_float_list, x_axis_string, n_x_bins,
         new_bins  = []
         new_n     = []
         index     = 0
-        while(abs(n[index])<1.e-9 and index < len(n)):
+        while(index < len(n) and abs(n[index])<1.e-9):
             index += 1
-        for i in range(index, len(n)-1):
+        for i in range(index, len(n)):
             new_bins.append((my_bins[i] + my_bins[i+1])/2.)
             new_n.append(n[i])
         hist = pyplot.plot(new_bins, new_n)
-- 
2.43.0


From 51ff30581fa92b0fa853fe033c7fef5ad3cc81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 079/120] fix: make_graph leaves the caller's lists unsorted

---
 xboa/common/matplotlib_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index d52fe05..b9b6271 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -108,12 +108,12 @@ def make_graph(x_float_list, x_axis_string,
               (len(x_float_list), len(y_float_list))
         msg += "They should be the same length, with at least 1 element."
         raise IndexError(msg)
-    multilist = [x_float_list, y_float_list]
+    multilist = [list(x_float_list), list(y_float_list)]
     if sort:
         xboa.common.multisort(multilist)
     x_min_max = xboa.common.min_max(multilist[0])
     y_min_max = xboa.common.min_max(multilist[1])
-    myplot = pyplot.plot(x_float_list, y_float_list, **kwds)
+    myplot = pyplot.plot(multilist[0], multilist[1], **kwds)
     pyplot.xlabel(x_axis_string)
     pyplot.ylabel(y_axis_string)
     pyplot.xlim  (x_min_max[0], x_min_max[1])
-- 
2.43.0


From 8cdb8166247acb52b99dc8b3472500cb3c0e6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 080/120] fix: make_multigraph draws graphs

---
 xboa/common/matplotlib_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index b9b6271..4fbfa63 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -151,12 +151,13 @@ def make_multigraph(x_float_list_of_lists, x_axis_string,
     for a_list in x_float_list_of_lists:
         total_x_list += a_list
     for a_list in y_float_list_of_lists:  total_y_list += a_list
-    x_min_max = min_max(total_x_list, margin=rg.graph_margin)
-    y_min_max = min_max(total_y_list, margin=rg.graph_margin)
+    x_min_max = xboa.common.min_max(total_x_list, margin=xboa.common.rg.graph_margin)
+    y_min_max = xboa.common.min_max(total_y_list, margin=xboa.common.rg.graph_margin)
     for index in range( len(x_float_list_of_lists) ):
+        kwd_args = {}
         if index < len(kwds):
             kwd_args = kwds[index]
-        multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+        multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
         xboa.common.multisort(multilist)
         myplot = pyplot.plot(multilist[0], multilist[1], **kwd_args)
     pyplot.xlabel(x_axis_string)
-- 
2.43.0


From f7998b3c88584e3d0e369a316f2ef28b8d703dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 081/120] fix: root_histogram keeps the y axis with a draw
 option

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 8fb3f21..f7226dd 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1605,8 +1605,8 @@ class Bunch:
     x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
     if y_axis_string == '' and nx_bins==None:
       nx_bins = int(num_events/10.)
-    if not y_axis_string == '' and draw_option=='': 
-      draw_option = 'COL'
+    if not y_axis_string == '':
+      if draw_option == '': draw_option = 'COL'
       y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
       if nx_bins == None: nx_bins = int(num_events**0.7/10.)
       if ny_bins == None: ny_bins = int(num_events**0.7/10.)
-- 
2.43.0


From 260c00bf324989b91e23fbb7b44da6e103e7d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 082/120] fix: graphs of bunches can be put in order by a
 comparator

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index f7226dd..91930f8 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1730,7 +1730,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for i, bunch in enumerate(list_of_bunches):
       try:
           x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
@@ -1853,7 +1853,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for bunch in list_of_bunches:
       x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
       y_points.append(bunch.get(y_axis_string, y_axis_list)/Common.units[y_axis_units])
-- 
2.43.0


From 0a5bad3e408f0f38a91c463d39a9abb4d0f79354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 083/120] fix: matplot_graph keeps the order given by the
 comparator

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 91930f8..ff1ecb2 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1865,7 +1865,7 @@ class Bunch:
     y_axis_string += ") "
     if not x_axis_units == '': x_axis_string += " ["+x_axis_units+"] "
     if not y_axis_units == '': y_axis_string += " ["+y_axis_units+"] "
-    graph = Common.make_matplot_graph(x_points, x_axis_string, y_points, y_axis_string)
+    graph = Common.make_matplot_graph(x_points, x_axis_string, y_points, y_axis_string, comparator==None)
     return matplotlib.pyplot.figure(graph)
   matplot_graph = staticmethod(matplot_graph)
 
-- 
2.43.0


From 4c0f7a97f4fae4d3a45324ddda599dc106128eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 084/120] fix: ellipse plots of the closed orbit finder are in
 the units of their axes

---
 .../_ellipse_closed_orbit_finder.py             | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 34afca8..9503273 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -285,9 +285,10 @@ class EllipseClosedOrbitFinderIteration(object):
         """
         config.has_root()
         x_var = self.keys.index(x_axis_string)
-        x_list = [x[x_var]*common.units[x_axis_units] for x in self.points]
+        x_list = [x[x_var]/common.units[x_axis_units] for x in self.points]
         y_var = self.keys.index(y_axis_string)
-        y_list = [x[y_var]*common.units[y_axis_units] for x in self.points]
+        y_list = [x[y_var]/common.units[y_axis_units] for x in self.points]
+        x_unit, y_unit = common.units[x_axis_units], common.units[y_axis_units]
         if x_axis_units != '':
             x_axis_string += ' ['+x_axis_units+']'
         if y_axis_units != '':
@@ -306,10 +307,12 @@ class EllipseClosedOrbitFinderIteration(object):
         graph.Draw('p')
         ellipse = None
         if type(self.centre) != type(None):
-            ell_centre = [self.centre[x_var], self.centre[y_var]]
+            ell_centre = [self.centre[x_var]/x_unit, self.centre[y_var]/y_unit]
             ell_matrix = [
-                [self.ellipse[x_var, x_var], self.ellipse[x_var, y_var]],
-                [self.ellipse[x_var, y_var], self.ellipse[y_var, y_var]]
+                [self.ellipse[x_var, x_var]/x_unit/x_unit,
+                 self.ellipse[x_var, y_var]/x_unit/y_unit],
+                [self.ellipse[x_var, y_var]/x_unit/y_unit,
+                 self.ellipse[y_var, y_var]/y_unit/y_unit]
             ]
             ell_matrix = numpy.array(ell_matrix)
             contours = [self.get_mean_noise()]
@@ -342,9 +345,9 @@ class EllipseClosedOrbitFinderIteration(object):
         """
         config.has_matplotlib()
         x_var = self.keys.index(x_axis_string)
-        x_list = [x[x_var]*common.units[x_axis_units] for x in self.points]
+        x_list = [x[x_var]/common.units[x_axis_units] for x in self.points]
         y_var = self.keys.index(y_axis_string)
-        y_list = [x[y_var]*common.units[y_axis_units] for x in self.points]
+        y_list = [x[y_var]/common.units[y_axis_units] for x in self.points]
         if x_axis_units != '':
             x_axis_string += ' ['+x_axis_units+']'
         if y_axis_units != '':
-- 
2.43.0


From 6110220fc03ae8e545a0053667fce5c27d159a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 085/120] fix: root histograms hold their highest entry

---
 xboa/common/_common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 23c774a..5e6c1ca 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -422,6 +422,9 @@ def make_root_histogram(name_string, x_float_list, x_axis_string, n_x_bins, y_fl
   if len(y_float_list) == len(x_float_list):
     x_min_max = min_max(x_float_list, weight_list, margin=rg.histo_margin, xmin=xmin, xmax=xmax)
     y_min_max = min_max(y_float_list, weight_list, margin=rg.histo_margin, xmin=ymin, xmax=ymax)
+    # ROOT leaves out the upper edge; keep the highest entry on the axis
+    if xmax == None: x_min_max[1] += 1e-9*(x_min_max[1] - x_min_max[0])
+    if ymax == None: y_min_max[1] += 1e-9*(y_min_max[1] - y_min_max[0])
     hist = ROOT.TH2D(name_string, hist_title_string+';'+x_axis_string+';'+y_axis_string, n_x_bins, x_min_max[0], x_min_max[1], n_y_bins, y_min_max[0], y_min_max[1])
     if(len(weight_list) == len(x_float_list)):
       for i in range( len(x_float_list) ):
@@ -431,6 +434,7 @@ def make_root_histogram(name_string, x_float_list, x_axis_string, n_x_bins, y_fl
         hist.Fill(x_float_list[i], y_float_list[i])
   else:
     x_min_max = min_max(x_float_list, weight_list, margin=rg.histo_margin, xmin=xmin, xmax=xmax)
+    if xmax == None: x_min_max[1] += 1e-9*(x_min_max[1] - x_min_max[0])
     hist = ROOT.TH1D(name_string, hist_title_string+';'+x_axis_string, n_x_bins, x_min_max[0], x_min_max[1])
     if(len(weight_list) == len(x_float_list)):
       for i in range( len(x_float_list) ):
-- 
2.43.0


From f788253f954e002179e7f5f2d525e28421f9eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 086/120] fix: HitFactoryBase.hit_generator yields every hit
 and ends

---
 xboa/hit/factory/_hit_factory_base.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/xboa/hit/factory/_hit_factory_base.py b/xboa/hit/factory/_hit_factory_base.py
index d51d445..20eb651 100644
--- a/xboa/hit/factory/_hit_factory_base.py
+++ b/xboa/hit/factory/_hit_factory_base.py
@@ -33,18 +33,21 @@ class HitFactoryBase(object):
         raise NotImplementedError("make_hit not implemented")
 
     def hit_generator(self):
-        try:
-            print("gen in")
-            yield self.make_hit()
-            print("gen out")
-        except (EOFError, xboa.hit.BadEventError):
-            self.new_spill()
+        """
+        Generate hits until there are none left; bad events are ignored
+        """
+        while True:
             try:
-                yield self.make_hit()
-            except (EOFError, xboa.hit.BadEventError):
-                raise StopIteration("Finished")
-        except StopIteration:
-            raise
+                hit = self.make_hit()
+            except EOFError:
+                return
+            except xboa.hit.BadEventError:
+                try:
+                    self.new_spill()
+                except (EOFError, xboa.hit.BadEventError):
+                    return
+            else:
+                yield hit
 
     def new_spill(self):
         """
-- 
2.43.0


From 383b46efbe5a22a7da5fb01e736db87e53089e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 087/120] fix: Hit.new_list_from_maus_json finds its factory

---
 xboa/hit/_hit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index ce98ebe..9aff6ea 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -215,7 +215,7 @@ class Hit(object):
     relevant maus_type. event_number will be given by the spill_number. 
     track_number will be given by the index on mc_events or recon_events.
     """
-    fac = xboa.hit.factory.factory.MausJsonHitFactory(format, file_handle)
+    fac = xboa.hit.factory.MausJsonHitFactory(filehandle, format)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
     
-- 
2.43.0


From 4035740aac66c2a0125d6750b0acc93fe4b44547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 088/120] fix: extensions that share object files are not built
 at the same time

---
 setup.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/setup.py b/setup.py
index cee1a59..81f00a1 100755
--- a/setup.py
+++ b/setup.py
@@ -6,6 +6,7 @@ import os
 import sys
 import xboa
 from distutils.core import setup, Extension
+from distutils.command.build_ext import build_ext
 
 prefix = os.path.join('/', sys.prefix, 'share' ,'xboa')
 dfiles = [(prefix+'/doc/',  ['README']),
@@ -53,6 +54,15 @@ bunchcore_mod = Extension(
     include_dirs = ['xboa/core'],
 )
 
+class BuildExt(build_ext):
+    """
+    The extensions share source files, hence object files; if they were built
+    at the same time, one could link an object that another is still writing
+    """
+    def finalize_options(self):
+        build_ext.finalize_options(self)
+        self.parallel = None
+
 setup(name='xboa',
       version=xboa.__version__,
       description='Cross-Platform Beam Optics Analysis - A multiparticle tracking postprocessor library for accelerator physicists',
@@ -77,6 +87,7 @@ setup(name='xboa',
                 'xboa.test',
       ],
       ext_modules = [hitcore_mod, bunchcore_mod, weight_context_mod],
+      cmdclass = {'build_ext':BuildExt},
       scripts=['xboa/examples/XBOA9f',
                'xboa/tracking/tracking_process/xboa_tracking_process.py'],
       data_files=dfiles,
-- 
2.43.0


From 67a117ec7bc5e3a55192d04d8b9d1c228584de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 089/120] fix: MAUS ROOT primaries have the charge of their
 particle type

---
 xboa/hit/factory/_maus_root_hit_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 2bcb986..783dc58 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -171,7 +171,7 @@ class MausRootHitFactory(HitFactoryBase):
                 hit["mass"] = 0.
                 self.bad_pid(hit["pid"])
             try:
-                hit["charge"] = common.pdg_pid_to_charge[hit["charge"]]
+                hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
             except KeyError:
                 hit["charge"] = 0.
                 self.bad_pid(hit["pid"])
-- 
2.43.0


From a303ac8dcda5ba40db0d1cbbcaf23ccc964f4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 090/120] fix: read MAUS ROOT trackpoints in python 3.7 and
 later

---
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 3d9872c..71525d0 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -129,7 +129,6 @@ class MausRootReconHitFactory(HitFactoryBase):
                 hit["spill"] = self.spill_number
                 hit["particle_number"] = track_i
                 yield hit
-        raise StopIteration("Out of events")
 
     def _read_tof_01_space_points(self, tof_event):
         """
-- 
2.43.0


From d47fad87827463f664316e530f9ad4bd64153ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 091/120] fix: generators of MAUS ROOT hits end at the last
 entry without an error

---
 xboa/hit/factory/_maus_root_hit_factory.py       | 4 ++--
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 783dc58..2979cc6 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -48,7 +48,7 @@ class MausRootHitFactory(HitFactoryBase):
         data = ROOT.MAUS.Data()
         self.tree.SetBranchAddress("data", data)
         if self.entry >= self.tree.GetEntries():
-            raise IndexError("Out of entries")
+            raise EOFError("Out of entries")
         self.tree.GetEntry(self.entry)
         self.spill = data.GetSpill()
         self.spill_number = self.spill.GetSpillNumber()
@@ -65,7 +65,7 @@ class MausRootHitFactory(HitFactoryBase):
             while len(self.hits) == 0:
                 self.new_spill()
             return self.hits.pop(0)
-        except IndexError:
+        except EOFError:
             raise xboa.hit.BadEventError("Run out of events")
 
     def _read_maus_spill(self):
diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 71525d0..163bede 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -51,7 +51,7 @@ class MausRootReconHitFactory(HitFactoryBase):
         data = ROOT.MAUS.Data()
         self.tree.SetBranchAddress("data", data)
         if self.entry >= self.tree.GetEntries():
-            raise IndexError("Out of entries")
+            raise EOFError("Out of entries")
         self.tree.GetEntry(self.entry)
         self.spill = data.GetSpill()
         self.spill_number = self.spill.GetSpillNumber()
@@ -68,7 +68,7 @@ class MausRootReconHitFactory(HitFactoryBase):
             while len(self.hits) == 0:
                 self.new_spill()
             return self.hits.pop(0)
-        except IndexError:
+        except EOFError:
             raise xboa.hit.BadEventError("Run out of events")
 
     def _read_maus_spill(self):
-- 
2.43.0


From ec0d14528b4b1f5686967f84df01a3b6c8a03e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 092/120] fix: Hit.new_list_from_maus_root finds its factory
 and reads the entry it is given

---
 xboa/hit/_hit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 9aff6ea..d20d24b 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -199,9 +199,9 @@ class Hit(object):
     Returns a list of hit objects. Station number will be taken from the relevant maus_type. event_number will be given by the spill_number. track_number will be given by
     the index on mc_events or recon_events
     """
-    fac = xboa.hit.factory.factory.MausRootHitFactory(format, root_tree, entry_number)
-    hit_list = [hit for hit in fac.hit_generator()]
-    return hit_list
+    fac = xboa.hit.factory.MausRootHitFactory(root_tree, format, entry_number)
+    fac.new_spill()
+    return fac.hits
 
   @classmethod
   def new_list_from_maus_json(cls, format, filehandle):
-- 
2.43.0


From e281eb26f6620d381665e52c2e85fdc3a5b681db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 093/120] fix: the number of MAUS ROOT hits counts hits of all
 files

---
 xboa/bunch/_bunch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index ff1ecb2..de3ce2e 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -313,6 +313,8 @@ class Bunch:
                                           list_of_maus_types=[file_type_string],
                                           test_function=test_function
                                   )
+      if number_of_hits >= 0:
+          hit_list = hit_list[:number_of_hits]
       return Bunch.new_from_hits(hit_list)
     elif file_type_string.find('maus_') > -1:
       hit_list = []
-- 
2.43.0


From d23e98aa8f171d17be08777cbdb0af46c665cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 094/120] fix: subprocesses are killed at exit rather than
 waited for

---
 xboa/common/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 5e6c1ca..032e301 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -55,6 +55,9 @@ except ImportError:
     pass
 try:
     import multiprocessing
+    # at exit this waits for subprocesses; imported here so that ours, which
+    # ends them, is called first
+    import multiprocessing.util
 except ImportError:
     pass
 
-- 
2.43.0


From 58da84d2010c8421658b37dd96f13b6cda6a4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 095/120] fix: kill_subprocesses_at_exit can be set in
 xboa.common

---
 xboa/common/_common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 032e301..3e040b5 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -829,7 +829,8 @@ def kolmogorov_smirnov_test(list_1, list_2):
 
 def __atexit():
   """Calls some functions automatically at exit"""
-  if(kill_subprocesses_at_exit):
+  # users set the flag in xboa.common, which has its own copy of it
+  if(kill_subprocesses_at_exit and sys.modules['xboa.common'].kill_subprocesses_at_exit):
     kill_all_subprocesses()
 atexit.register(__atexit)
 
-- 
2.43.0


From 19ecb9c1b0a7c9ee4135f1a8c133373e61d003c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 096/120] fix: Bunch.hit_equality takes notice of its tolerance

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index de3ce2e..83ab329 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -617,7 +617,7 @@ class Bunch:
     """
     if len(self) != len(target): return False
     for i in range( len(self) ):
-      if self[i] != target[i]: return False
+      if self[i].__ne__(target[i], float_tolerance): return False
     return True
 
   def conditional_remove(self, variable_value_dict, comparator, value_is_nsigma_bool = False):
-- 
2.43.0


From e24c4cdbc80783166b2a81c684a8eef22c811e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 097/120] fix: bunches with more means are not equal to bunches
 with fewer

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 83ab329..c27f071 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -152,8 +152,8 @@ class Bunch:
     """Return true if all hits in self are the same as all hits in target, and set_covariance_matrix data are the same"""
     if type(target)      != type(self):          return False
     if len(self.__hits)  != len(target.__hits):  return False
+    if set(self.__means) != set(target.__means): return False
     for key,value in self.__means.items():
-      if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
     if not numpy.array_equal(self.__covs, target.__covs): return False
     for index in range(len(self.__hits)):
-- 
2.43.0


From 7a7b7c45605ed956ec78690b418ebbba024910dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 098/120] fix: points of a tesselation are drawn in the
 requested projection

---
 xboa/bunch/weighting/_voronoi_weighting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 4cb51ff..4168402 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -231,9 +231,9 @@ class VoronoiWeighting(object):
         y_list = [vertex[proj[1]] for vertex in self.tesselation.vertices]
         points = numpy.transpose(self.real_points)
         hist, points_graph = common.make_root_graph(title,
-                                                    points[0][lower:upper],
+                                                    points[proj[0]][lower:upper],
                                                     projection_axes[0],
-                                                    points[1][lower:upper],
+                                                    points[proj[1]][lower:upper],
                                                     projection_axes[1])
         if fill_option != None and fill_option != 'none':
             hist.SetTitle('Color by '+fill_option)
-- 
2.43.0


From 3cdffba436373c81c2b1e8720097d48fd8a4af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 099/120] fix: axes that are no weight variables are refused
 with ValueError

---
 xboa/bunch/weighting/_voronoi_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 4168402..93b1613 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -219,7 +219,7 @@ class VoronoiWeighting(object):
            projection_axes[1] not in self.weight_variables:
             raise ValueError("Projection axes "+str(projection_axes)+\
                              " should be a subset of weight_variables "+
-                             str(weight_variables))
+                             str(self.weight_variables))
         if self.tesselation == None:
             raise ValueError("Need to apply_weights before tesselation can be"+
                              "plotted")
-- 
2.43.0


From 7fed03a467cb5549c369a978a8011dd1a5a19b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 100/120] fix: drawing a tesselation before it is made raises
 ValueError

---
 xboa/bunch/weighting/_voronoi_weighting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 93b1613..641a8db 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -209,10 +209,6 @@ class VoronoiWeighting(object):
         tile_graph_list is a list of graphs, one for each tile.
         """
         config.has_root()
-        if lower == None:
-            lower = 0
-        if upper == None:
-            upper = len(self.real_points)
         if len(projection_axes) != 2:
             raise ValueError("Expected projection axes of length 2")
         if projection_axes[0] not in self.weight_variables or \
@@ -223,6 +219,10 @@ class VoronoiWeighting(object):
         if self.tesselation == None:
             raise ValueError("Need to apply_weights before tesselation can be"+
                              "plotted")
+        if lower == None:
+            lower = 0
+        if upper == None:
+            upper = len(self.real_points)
         title = "tesselation_"+str(projection_axes[0])+"_"+\
                 str(projection_axes[1])
         canvas = common.make_root_canvas(title)
-- 
2.43.0


From d99f2ea84b22038ed9e447a22be47bae648fda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 101/120] fix: the fit of a tune spectrum keeps to its window

---
 xboa/algorithms/tune/_fft_tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 21ec7e2..b2aa089 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -216,7 +216,7 @@ class FFTTuneFinder(object):
             fit.SetParameter(0, fit_centre)
             fit.SetParameter(1, fit_height)
             fit.SetParameter(2, fit_height)
-        graph.Fit(fit)
+        graph.Fit(fit, "R")
         canvas.cd()
         fit.Draw("SAME")
         print("Got peak at", fit.GetParameter(0), "with error", fit.GetParError(0))
-- 
2.43.0


From b03416b700d69e05d51c6288911ada317b042a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 102/120] fix: the tile with the highest value has the highest
 colour

---
 xboa/bunch/weighting/_voronoi_weighting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 641a8db..31e76d7 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -280,7 +280,8 @@ class VoronoiWeighting(object):
         n_colors = ROOT.TColor.GetNumberOfColors()
         bounds = [min(fill_data)+i*(max(fill_data)-min(fill_data))/(n_colors-1)\
                                                      for i in range(n_colors)]
-        fill_colors = [bisect.bisect_left(bounds, fill) for fill in fill_data]
+        # the last bound may be rounded to less than the highest fill
+        fill_colors = [min(bisect.bisect_left(bounds, fill), n_colors-1) for fill in fill_data]
         fill_colors = [ROOT.TColor.GetColorPalette(i) for i in fill_colors]
         return fill_colors
 
-- 
2.43.0


From 2367dfa12f3d8d5c3eeb606d71d921746321239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 103/120] fix: covariances, emittances and transformations of
 bunches work without matplotlib

---
 xboa/bunch/_bunch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index c27f071..fb58e99 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -37,11 +37,14 @@ except ImportError:
   pass
 try:
   import numpy
-  import matplotlib
   from numpy import matrix
   from numpy import linalg
 except ImportError:
   pass
+try:
+  import matplotlib
+except ImportError:
+  pass
 
 import xboa.common as Common
 import xboa.common.config as config
-- 
2.43.0


From 6742982c6ccc1d53e1cd568925edcf8c3d2b5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 104/120] fix: bunches can be compared without numpy

---
 xboa/bunch/_bunch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index fb58e99..30fd558 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -158,7 +158,8 @@ class Bunch:
     if set(self.__means) != set(target.__means): return False
     for key,value in self.__means.items():
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    if not numpy.array_equal(self.__covs, target.__covs): return False
+    if (self.__covs is None) != (target.__covs is None): return False
+    if self.__covs is not None and not numpy.array_equal(self.__covs, target.__covs): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
-- 
2.43.0


From 2f61a58590e7328d1367c412354413dfe2a1ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 105/120] fix: smoothing can be used without ROOT

---
 xboa/algorithms/smoothing/_fit_smoothing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/smoothing/_fit_smoothing.py b/xboa/algorithms/smoothing/_fit_smoothing.py
index 9d9eec6..25b0817 100644
--- a/xboa/algorithms/smoothing/_fit_smoothing.py
+++ b/xboa/algorithms/smoothing/_fit_smoothing.py
@@ -1,11 +1,16 @@
 import copy
-import ROOT
+try:
+    import ROOT
+except ImportError:
+    pass
+import xboa.common.config as config
 
 class FitSmoothing(object):
     def __init__(self, fit_function):
         self.fit = fit_function
 
     def smooth(self, data):
+        config.has_root()
         graph = ROOT.TGraph(len(data))
         for i, data_y in enumerate(data):
             graph.SetPoint(i, i, data_y)
-- 
2.43.0


From 868b59d3e11ffe01e4a926077d6d6202f27f741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 106/120] fix: smoothing can be used without numpy

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index b531efb..99cd21f 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -18,7 +18,11 @@
 """
 
 import copy
-import numpy
+try:
+    import numpy
+except ImportError:
+    pass
+import xboa.common.config as config
 
 class CutSmoothing(object):
     """
@@ -63,6 +67,7 @@ class CutSmoothing(object):
 
         Columns need to support: access by (integer) index; del operation
         """
+        config.has_numpy()
         signal = table[target_column]
         n_signal = len(signal)
         for column in table:
-- 
2.43.0


From 25a3d0c0c1de489c6bff9d661bc94a2afe137dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 107/120] fix: peaks can be found by slope without ROOT

---
 xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
index aa4e40b..9daf18b 100644
--- a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
@@ -29,7 +29,7 @@ class UphillDownhillPeakFinder(object):
         """
         Initialise the peak finder
         """
-        self.fit = ROOT.TF1("fit","[0]+[1]*x+[2]*x*x+[3]*x*x*x+[4]*x*x*x", 0., 1.)
+        self.fit = None
 
     def _get_derivative(self, data):
         return [data[i+1]-data[i] for i, x in enumerate(data[1:])]
@@ -39,6 +39,9 @@ class UphillDownhillPeakFinder(object):
         Find the error on the peak estimation based on a linear fit to the
         derivative
         """
+        common.config.has_root()
+        if self.fit == None:
+            self.fit = ROOT.TF1("fit","[0]+[1]*x+[2]*x*x+[3]*x*x*x+[4]*x*x*x", 0., 1.)
         derivative = self._get_derivative(data)
         # we want to fit for x = my + c
         # c is the peak
-- 
2.43.0


From 219d4be4fff97078ca8dad142923521301dff2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 108/120] fix: refinement of peaks without numpy raises an
 ImportError

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 4813ab0..af8ded0 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -121,6 +121,7 @@ class RefinePeakFinder(object):
         Find the error on the peak estimation based on a linear fit to the
         derivative
         """
+        common.config.has_numpy()
         # we want to fit for x = my + c
         # c is the peak
         # chi2 gives estimate of fit errors
-- 
2.43.0


From 27f1aedcb3c3314d50abc2f9866cf73251c91eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 109/120] fix: tracking can be used without numpy

---
 xboa/tracking/_matrix_tracking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/tracking/_matrix_tracking.py b/xboa/tracking/_matrix_tracking.py
index 9dc2e2a..e886f88 100644
--- a/xboa/tracking/_matrix_tracking.py
+++ b/xboa/tracking/_matrix_tracking.py
@@ -20,9 +20,13 @@
 Should be imported directly from the xboa::tracking namespace
 """
 
-import numpy
+try:
+    import numpy
+except ImportError:
+    pass
 
 from xboa import common as Common
+import xboa.common.config as config
 from xboa.hit import Hit
 from ._tracking_base import TrackingBase 
 
@@ -42,6 +46,7 @@ class MatrixTracking(TrackingBase):
               matrix of shape (1,6)
         - offset_in offset v_in. Should be a numpy matrix of shape (1,6)
         """
+        config.has_numpy()
         TrackingBase.__init__(self)
         if len(list_of_offsets) != len(list_of_transfer_matrices):
             raise IndexError(
-- 
2.43.0


From a229e9a3000d9c095a9807671ccdf283cbb182c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 110/120] fix: weightings that need no processes can be used
 without multiprocessing

---
 xboa/bunch/weighting/_hull_content.py      | 6 +++++-
 xboa/bunch/weighting/_voronoi_weighting.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 5016736..8eadfa4 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -19,7 +19,10 @@ HullContent class should be imported directly from xboa.bunch.weighting
 """
 
 import math
-import multiprocessing
+try:
+    import multiprocessing
+except ImportError:
+    pass
 import signal
 import os
 
@@ -50,6 +53,7 @@ class HullContent(object):
         """
         config.has_numpy()
         config.has_scipy()
+        config.has_multiprocessing()
         try:
             self.tesselation = tesselation
             self.region_list = region_list
diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 31e76d7..e488721 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -20,7 +20,10 @@ VoronoiWeighting class should be imported directly from xboa.bunch.weighting
 
 import math
 import bisect
-import multiprocessing
+try:
+    import multiprocessing
+except ImportError:
+    pass
 
 try:
     import numpy
-- 
2.43.0


From 8b2d63e2832a543dadb8dbff78c31301213f6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 111/120] fix: process_list without multiprocessing raises an
 ImportError

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 3e040b5..7ba8bef 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -939,6 +939,7 @@ def process_list(function_call, list_of_args, max_n_processes):
   the time.sleep function with inputs 3, 6 and 2 across 2 cores and return 
   list like [None, None, None].
   """
+  config.has_multiprocessing()
   manager = multiprocessing.Manager()
   queue = manager.Queue() # queue stores return values
   pool = multiprocessing.Pool(max_n_processes) # pool runs multiprocess
-- 
2.43.0


From 9bd815068d2c22a49e905a599aebf1cdadb9165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 112/120] fix: fit_ellipse without numpy raises an ImportError

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 7ba8bef..516c19c 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -1016,6 +1016,7 @@ def fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations = 10, ve
     points on the ellipse is given by (x-<x>)^T*V^{-1}*(x-<x>) where x is a
     particle vector and V is the defining matrix.
     """
+    config.has_numpy()
     n_points = len(points)
     mean, cov = numpy.ones([2]), numpy.ones([2, 2])
     old_cut = None
-- 
2.43.0


From 6b6afe8a82ed615ecfd468e46555b19b193d1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 113/120] fix: subprocess does not fork when ROOT is active

---
 xboa/common/_common.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 516c19c..e3e5ff1 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -785,18 +785,16 @@ def subprocess(function, args):
     __mp_subprocesses[-1].start()
     return __mp_subprocesses[-1]
   except:
-    try: 
-      config.has_root()
+    if config.PACKAGES["root"]:
       raise ImportError('Error - attempt to make a subprocess using fork when ROOT library is active')
-    except ImportError:
-      pid = os.fork()
-      if pid == 0:
-        try:    function(*args)
-        except: os._exit(1)
-        os._exit(0)
-      else:
-        __fk_subprocesses.append(pid)
-        return pid
+    pid = os.fork()
+    if pid == 0:
+      try:    function(*args)
+      except: os._exit(1)
+      os._exit(0)
+    else:
+      __fk_subprocesses.append(pid)
+      return pid
  
 def kill_all_subprocesses():
   """
-- 
2.43.0


From e48373e4a73f0a0a277fe20f1b6339cd40890d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 114/120] fix: make_root_ellipse_function without numpy raises
 an ImportError

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index e3e5ff1..b2654ce 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -1057,6 +1057,7 @@ def make_root_ellipse_function(mean, cov, contours=None, xmin=-1e3, xmax=1e3, ym
     the number of points in plot (func.SetNpy).
     """
     config.has_root()
+    config.has_numpy()
     mat_inv = numpy.linalg.inv(cov)
     fit_func_str = "[2]*(x-[0])**2+[4]*(y-[1])**2+2*[3]*(x-[0])*(y-[1])"
     fit_func = ROOT.TF2("ellipse", fit_func_str)
-- 
2.43.0


From d095c2839095ea84f6695b44cb08bf38edd8ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 115/120] fix: the lists of names that Hit gives out are the
 caller's own

---
 xboa/hit/_hit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index d20d24b..c473a22 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -512,7 +512,7 @@ class Hit(object):
 
   def file_types():
     """Static function returns a list of available file types"""
-    return Hit.__file_types
+    return list(Hit.__file_types)
   file_types = staticmethod(file_types)
 
   def get_maus_dict(self, type_name):
@@ -556,17 +556,17 @@ class Hit(object):
 
   def mass_shell_variables():
     """Static function returns a list of variables suitable for mass_shell_condition calls"""
-    return Hit.__mass_shell_variables
+    return list(Hit.__mass_shell_variables)
   mass_shell_variables = staticmethod(mass_shell_variables)
 
   def get_variables():
     """Static function returns a list of variable suitable for get calls"""
-    return Hit.__get_keys
+    return list(Hit.__get_keys)
   get_variables = staticmethod(get_variables)
   
   def set_variables():
     """Static function returns a list of variable suitable for set calls"""
-    return Hit.__set_keys
+    return list(Hit.__set_keys)
   set_variables = staticmethod(set_variables)
 
 
-- 
2.43.0


From 1788158c7a570c3d7edfdd54b489edc532673be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 116/120] fix: the lists of names that Bunch gives out are the
 caller's own

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 30fd558..b09a625 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1272,7 +1272,7 @@ class Bunch:
 
   def get_axes():
     """Return list of axis variables (position-type variables)"""
-    return Bunch.__axis_list
+    return list(Bunch.__axis_list)
   get_axes = staticmethod(get_axes)
   
   def get_hit_variable(self, hit, variable_name, covariance_matrix=None, mean_dict={}):
@@ -1369,7 +1369,7 @@ class Bunch:
 
   def get_variables():
     """Return a list of variables suitable for calls to Bunch.get"""
-    return Bunch.__get_list
+    return list(Bunch.__get_list)
   get_variables = staticmethod(get_variables)
 
   def hit_get_variables():
-- 
2.43.0


From 10abfca3536de705bf778e215c9f818a1d9310c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 117/120] fix: BuiltinHitFactory.file_types gives out a copy of
 the formats

---
 xboa/hit/factory/_builtin_hit_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_builtin_hit_factory.py b/xboa/hit/factory/_builtin_hit_factory.py
index 571b179..d63bd1c 100644
--- a/xboa/hit/factory/_builtin_hit_factory.py
+++ b/xboa/hit/factory/_builtin_hit_factory.py
@@ -69,7 +69,7 @@ class BuiltinHitFactory(LineFactoryBase):
 
     @classmethod
     def file_types(cls):
-        return cls.file_formats
+        return dict((name, list(columns)) for name, columns in cls.file_formats.items())
 
     #formatting information
     file_formats = {
-- 
2.43.0


From 193bdc78a79331ef031ba8ff36d49c351a7f1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 118/120] fix: user formats may have columns of spill and
 global_weight

---
 xboa/hit/_hit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index c473a22..b391fee 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -844,7 +844,8 @@ class Hit(object):
   __set_variables        = {'p':set_p,'x\'':set_xP,'y\'':set_yP,'t\'':set_tP,'ct':set_ct,'kinetic_energy':set_ek,'':__do_nothing}
   _default_var_types    = {'x':float,'y':float,'z':float,'t':float,'px':float,'py':float,'pz':float,'energy':float,'bx':float,'by':float,'bz':float,
                             'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'local_weight':float,
-                            'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float}
+                            'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float,
+                            'spill':int, 'global_weight':float}
 
   __get_keys = []
   __set_keys = []
-- 
2.43.0


From d6e7fcc9c5656a0dfd4846994fd436cd2ca72619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 119/120] fix: new_from_dict sets derived variables after those
 they are calculated from

---
 xboa/hit/_hit.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index b391fee..3eba987 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -727,13 +727,15 @@ class Hit(object):
     self.__set_from_dict(state)
 
   # set data from a dict; global_weight is looked up by (spill, event, particle)
-  # so it is set after those
+  # and derived variables are calculated from others, so they are set after those
   def __set_from_dict(self, set_dict):
-    for k,v in set_dict.items():
-      if k != 'global_weight':
-        self.set(k, v)
-    if 'global_weight' in set_dict:
-      self.set('global_weight', set_dict['global_weight'])
+    for k in sorted(set_dict, key=Hit._is_derived):
+      self.set(k, set_dict[k])
+
+  # True if setting the variable uses the values of other variables
+  def _is_derived(key):
+    return key == 'global_weight' or key in Hit.__set_variables
+  _is_derived = staticmethod(_is_derived)
 
   #write formatted output - don't touch mass or pid beyond reading them
   def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
-- 
2.43.0


From 2862aab979a588df740bf706c6071b1aa2f4fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 120/120] fix: columns of derived variables are read after
 those they are calculated from

---
 xboa/hit/factory/_line_factory_base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 938f206..2c203f5 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -53,6 +53,7 @@ class LineFactoryBase(HitFactoryBase):
         if not(len(words) == len(format_list)): 
             raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
         a_hit = xboa.hit.Hit()
+        values = []
         for key in format_list:
             value = words.pop()
             if key != '':
@@ -69,10 +70,20 @@ class LineFactoryBase(HitFactoryBase):
                                          str(key)+" with line "+str(line))
                 if xboa.hit.Hit._default_var_types[key] == float:
                     value *= common.units[format_units_dict[key]]
+                values.append((key, value))
+        # derived variables, e.g. kinetic_energy, are calculated from the others
+        # and from the mass, so they are set after those
+        for derived in False, True:
+            for key, value in values:
+                if xboa.hit.Hit._is_derived(key) != derived:
+                    continue
                 try:
                     a_hit.set(key, value)
                 except IndexError: # e.g. integer is out of range
                     raise xboa.hit.BadEventError("Failed to set "+str(key)+\
                                                  " with line "+str(line))
+            pid = abs(a_hit.get('pid'))
+            if 'mass' not in format_list and pid in common.pdg_pid_to_mass:
+                a_hit.set('mass', common.pdg_pid_to_mass[pid])
         return a_hit
 
-- 
2.43.0

