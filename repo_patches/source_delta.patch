From 0c384b9d5dda49cf1179c5cb21004f95fd97fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 01/35] fix: check __index__ before converting a C security
 proxy to an index

The C proxy type inherited nb_index from zope.proxy's proxy type, so
operator.index(), hex(), range(), slicing, bytes() etc. converted the
protected object without asking its checker.
---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..6d7837c 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -71,6 +71,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -562,6 +563,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -722,6 +724,9 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+
+    /* Added in release 2.5 */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -891,6 +896,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From 3a0ae0e597b5ad1d7da0f7b41a2257a933e8ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:06 +0000
Subject: [PATCH 02/35] fix: do not crash or leak in the C checker when it
 looks at a name

The name was encoded to UTF-8 for each comparison: the bytes were leaked
on every check of a name that is not declared, and a name with a lone
surrogate made the encoding fail and its NULL result be dereferenced.
---
 src/zope/security/_zope_security_checker.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..d2f0e04 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -161,8 +158,9 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 
   operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+              && PyUnicode_GetLength(name) >= 2
+              && PyUnicode_READ_CHAR(name, 0) == '_'
+              && PyUnicode_READ_CHAR(name, 1) == '_');
 
   if (operator)
     {
@@ -178,7 +176,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From 70da4feb8bce8622a9adb97fdec0886aab2cd38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 03/35] fix: next() on a C proxy of an object that is not an
 iterator

PyIter_Next must only be called with an iterator: granted __next__ on any
other object (e.g. the keys view of an OrderedDict, by default) crashed the
interpreter. Raise TypeError, as next() does for the bare object.
---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 6d7837c..35223fd 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -354,6 +354,12 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
+      if (!PyIter_Check(self->proxy.proxy_object))
+        {
+          PyErr_Format(PyExc_TypeError, "'%.200s' object is not an iterator",
+                       Py_TYPE(self->proxy.proxy_object)->tp_name);
+          return NULL;
+        }
       result = PyIter_Next(self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
-- 
2.43.0


From 84dd28d4702b9a83ca714ae54741dff82f7eedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:43 +0000
Subject: [PATCH 04/35] fix: default repr of a C proxy when a class or module
 name is no UTF-8 string

The names were encoded with an unchecked PyUnicode_AsUTF8String, whose
result was leaked, or dereferenced although NULL if the class or module
name is not a string or cannot be encoded.
---
 src/zope/security/_proxy.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 35223fd..ea7dd6a 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -391,7 +388,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -400,22 +396,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
-- 
2.43.0


From 8b8ff1d71e2e5d7778a1088b7fd9fdb525c588ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:00 +0000
Subject: [PATCH 05/35] fix: a permission of None forbids access in the C
 checker

As documented for Checker and implemented in CheckerPy, a name whose
permission is None is forbidden. The C checker asked the interaction
for the permission None instead, which allows it under the permissive
policy or without participations.
---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index d2f0e04..19961e3 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -144,7 +144,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -228,7 +228,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From f6f7a33cf4b2ddb03d9a51f9107a30a3f0b312d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 06/35] fix: protect the results of comparisons in the Python
 proxy

The result of a rich comparison that is not a boolean was returned
unproxied. Proxy it, as the C implementation does.
---
 src/zope/security/proxy.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..8ee4c84 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -55,6 +55,15 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _proxy_comparison(self, res):
+    # Comparisons are not checked, but unless they are just true or false,
+    # their results need protection like those of any other operation.
+    if res is True or res is False:
+        return res
+    checker = super(PyProxyBase, self).__getattribute__('_checker')
+    return checker.proxy(res)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -177,32 +186,32 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        return _proxy_comparison(self, wrapped < other)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        return _proxy_comparison(self, wrapped <= other)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        return _proxy_comparison(self, wrapped == other)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        return _proxy_comparison(self, wrapped != other)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        return _proxy_comparison(self, wrapped >= other)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        return _proxy_comparison(self, wrapped > other)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From 752a37c35db6c6200cd45fb62c2b15d86969e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:42 +0000
Subject: [PATCH 07/35] fix: in-place operations of the Python proxy never
 change what it guards

The proxy was rebound to the operation's result, so that another object
than before was guarded by the checker of the old one, for all holders of the
proxy. A result of the fallback operation was guarded by the old object's
checker as well, and NotImplemented was not taken as such. Carry the
operation out like the C implementation: return the proxy itself if the
object was changed in place, and protect any other result as such.
---
 src/zope/security/proxy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 8ee4c84..1eab2b2 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -40,18 +41,17 @@ def _check_name(meth, wrap_result=True):
 
 def _check_name_inplace(meth):
     name = meth.__name__
+    operation = getattr(operator, name)
 
     def _wrapper(self, *args, **kw):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
-            # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
+        res = operation(wrapped, *args, **kw)
+        if res is wrapped:
+            # The operation was really carried out in place.
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(res)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From 4a4dcf260cbe49018aede1ade09cd85d5e542035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 08/35] fix: keep the Python proxy's object and checker out of
 reach

Any code could assign to a proxy's _wrapped and _checker, reinitialize
the proxy, or read both by naming a variable 'self'. Admit only the
implementation of proxies, and the methods of subclasses as before.
---
 src/zope/security/proxy.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 1eab2b2..0857e30 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -75,6 +75,14 @@ def _fmt_address(obj):
     return '0x%016X' % id(obj)  # pragma: no cover
 
 
+def _is_inside(proxy, frame):
+    # The code in *frame* may only use the private slots of *proxy* if it is
+    # part of the implementation of proxies, or may be one of a subclass's.
+    return (type(proxy) is not ProxyPy
+            or frame.f_globals is globals()
+            or frame.f_globals is sys.modules[PyProxyBase.__module__].__dict__)
+
+
 class ProxyPy(PyProxyBase):
     """
     The pure-Python reference implementation of a security proxy.
@@ -95,16 +103,17 @@ class ProxyPy(PyProxyBase):
         return inst
 
     def __init__(self, value, checker):
+        # __new__ has set everything up, nothing may change it later.
         if checker is None:
             raise ValueError('checker may now be None')
-        self._wrapped = value
-        self._checker = checker
 
     # Attribute protocol
     def __getattribute__(self, name):
         if name in ('_wrapped', '_checker'):
             # Only allow _wrapped and _checker to be accessed from inside.
-            if sys._getframe(1).f_locals.get('self') is not self:
+            frame = sys._getframe(1)
+            if (frame.f_locals.get('self') is not self
+                    or not _is_inside(self, frame)):
                 raise AttributeError(name)
         wrapped = super().__getattribute__('_wrapped')
         if name == '_wrapped':
@@ -169,6 +178,8 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
+            if not _is_inside(self, sys._getframe(1)):
+                raise AttributeError(name)
             return super().__setattr__(name, value)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
-- 
2.43.0


From ba608e1eaf9e74d7ead9944053e38e975722266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:31 +0000
Subject: [PATCH 09/35] fix: let a combined checker ask its first checker

A combined checker only took over the permissions of its first checker.
If that is a combined checker itself, or one with checks of its own, access
it grants was refused.
---
 src/zope/security/checker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..eb57437 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -559,12 +559,13 @@ class CombinedChecker(Checker):
                          checker1.get_permissions,
                          checker1.set_permissions)
 
+        self._checker1 = checker1
         self._checker2 = checker2
 
     def check(self, object, name):
         'See IChecker'
         try:
-            Checker.check(self, object, name)
+            self._checker1.check(object, name)
         except ForbiddenAttribute:
             self._checker2.check(object, name)
         except Unauthorized as unauthorized_exception:
@@ -578,7 +579,7 @@ class CombinedChecker(Checker):
     def check_setattr(self, object, name):
         'See IChecker'
         try:
-            Checker.check_setattr(self, object, name)
+            self._checker1.check_setattr(object, name)
         except ForbiddenAttribute:
             self._checker2.check_setattr(object, name)
         except Unauthorized as unauthorized_exception:
-- 
2.43.0


From 5cf81ec849c653649572b5ceb61cf0b0d98b79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:10 +0000
Subject: [PATCH 10/35] fix: let errors of the object's own str() and repr()
 through in Python

Only a refusal of the checker selects the default representation. The
Python proxy also hid every error but TypeError that the object itself
raised, unlike the C implementation.
---
 src/zope/security/proxy.py | 39 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 0857e30..1a7bf82 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -75,6 +75,12 @@ def _fmt_address(obj):
     return '0x%016X' % id(obj)  # pragma: no cover
 
 
+def _default_repr(wrapped):
+    return '<security proxied {}.{} instance at {}>'.format(
+        wrapped.__class__.__module__, wrapped.__class__.__name__,
+        _fmt_address(wrapped))
+
+
 def _is_inside(proxy, frame):
     # The code in *frame* may only use the private slots of *proxy* if it is
     # part of the implementation of proxies, or may be one of a subclass's.
@@ -245,33 +251,24 @@ class ProxyPy(PyProxyBase):
             return hint()
 
     def __str__(self):
+        wrapped = super().__getattribute__('_wrapped')
+        checker = super().__getattribute__('_checker')
         try:
-            return _check_name(PyProxyBase.__str__)(self)
-        # The C implementation catches almost all exceptions; the
-        # exception is a TypeError that's raised when the repr returns
-        # the wrong type of object.
-        except TypeError:
-            raise
+            checker.check(wrapped, '__str__')
         except:  # noqa: E722 do not use bare 'except'
-            # The C implementation catches all exceptions.
-            wrapped = super().__getattribute__('_wrapped')
-            return '<security proxied {}.{} instance at {}>'.format(
-                wrapped.__class__.__module__, wrapped.__class__.__name__,
-                _fmt_address(wrapped))
+            # The C implementation catches all exceptions of the check.
+            return _default_repr(wrapped)
+        return checker.proxy(str(wrapped))
 
     def __repr__(self):
+        wrapped = super().__getattribute__('_wrapped')
+        checker = super().__getattribute__('_checker')
         try:
-            return _check_name(PyProxyBase.__repr__)(self)
-        # The C implementation catches almost all exceptions; the
-        # exception is a TypeError that's raised when the repr returns
-        # the wrong type of object.
-        except TypeError:
-            raise
+            checker.check(wrapped, '__repr__')
         except:  # noqa: E722 do not use bare 'except'
-            wrapped = super().__getattribute__('_wrapped')
-            return '<security proxied {}.{} instance at {}>'.format(
-                wrapped.__class__.__module__, wrapped.__class__.__name__,
-                _fmt_address(wrapped))
+            # The C implementation catches all exceptions of the check.
+            return _default_repr(wrapped)
+        return checker.proxy(repr(wrapped))
 
 
 for name in ['__call__',
-- 
2.43.0


From 72fb71dcae384ed78f0591ec348f6acc89e4a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:03 +0000
Subject: [PATCH 11/35] fix: views of dictionaries do not hand out bare objects

Dictionary views were registered as basic types, so values() and items() of
a proxied dictionary delivered the contained objects unprotected.
---
 src/zope/security/checker.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index eb57437..544e5b1 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -748,6 +748,13 @@ _setChecker = NamesChecker([
     '__le__', '__ge__',
 ])
 
+# The views of a dictionary deliver the objects in it, so they are no rocks.
+_viewChecker = NamesChecker([
+    '__iter__', '__len__', '__str__', '__contains__', 'isdisjoint',
+    '__and__', '__or__', '__sub__', '__xor__',
+    '__rand__', '__ror__', '__rsub__', '__rxor__',
+])
+
 
 class _BasicTypes(dict):
     """Basic Types Dictionary
@@ -787,9 +794,6 @@ _basic_types = {
     datetime.date: NoProxy,
     datetime.time: NoProxy,
     datetime.tzinfo: NoProxy,
-    type({}.values()): NoProxy,
-    type({}.keys()): NoProxy,
-    type({}.items()): NoProxy,
 }
 
 try:
@@ -848,6 +852,9 @@ _default_checkers = {
     list: NamesChecker(['__getitem__', '__len__', '__iter__',
                         '__contains__', 'index', 'count', '__str__',
                         '__add__', '__radd__', ]),
+    type({}.keys()): _viewChecker,
+    type({}.values()): _viewChecker,
+    type({}.items()): _viewChecker,
     set: _setChecker,
     frozenset: _setChecker,
     # XXX: actually decimal.Decimal has more methods, which are unlisted here
@@ -936,6 +943,8 @@ def _fixup_dictlike(dict_type):
 def _fixup_odict():
     from collections import OrderedDict
 
+    # (... and the iterators of the views of ordinary dictionaries)
+    _fixup_dictlike(dict)  # noqa: F821 undefined name '_fixup_dictlike'
     # The `_fixup_dictlike` is detected as undefined because it is deleted
     # later on but this function is called beforehand:
     _fixup_dictlike(OrderedDict)  # noqa: F821 undefined name '_fixup_dictlike'
-- 
2.43.0


From 6f1469d1cd6f3e80ccf00d0be49cec6db56be614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 12/35] fix: canAccess and canWrite ask about the object that
 would be accessed

They passed the proxy on to the checker.  A policy was then asked about
another object than by an actual access, and canAccess(obj, '__iter__')
wrongly said yes for an iterable that does not grant __iter__.
---
 src/zope/security/checker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 544e5b1..6852f6a 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -86,6 +86,7 @@ from zope.security.interfaces import ISecurityProxyFactory
 from zope.security.interfaces import Unauthorized
 from zope.security.proxy import Proxy
 from zope.security.proxy import getChecker
+from zope.security.proxy import getObject
 
 
 try:
@@ -149,6 +150,8 @@ def canWrite(obj, name):
     """
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # The policy has to be asked about the same object as by an actual access.
+    obj = getObject(obj)
     try:
         checker.check_setattr(obj, name)
     except Unauthorized:
@@ -186,6 +189,8 @@ def canAccess(obj, name):
     # implementation, special names like __getitem__
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # The policy has to be asked about the same object as by an actual access.
+    obj = getObject(obj)
     try:
         checker.check_getattr(obj, name)
     except Unauthorized:
-- 
2.43.0


From 4646cd6ec5571ccb1771fa430bcdfe4ddbd734dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:26 +0000
Subject: [PATCH 13/35] fix: an object that claims to be a security proxy is
 none

ProxyFactory left objects that return Proxy as their __class__ unprotected,
and so did the Python checker's proxy(); getObjectPy and getCheckerPy believed
them as well and handed out their _wrapped and _checker.
---
 src/zope/security/checker.py   | 5 +++--
 src/zope/security/decorator.py | 2 +-
 src/zope/security/proxy.py     | 9 ++++++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 6852f6a..b7143d6 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -109,7 +109,8 @@ def ProxyFactory(object, checker=None):
 
     The proxy checker is looked up if not provided.
     """
-    if isinstance(object, Proxy):
+    # (Any object may claim to be a proxy in its __class__.)
+    if issubclass(type(object), Proxy):
         if checker is None or checker is getChecker(object):
             return object
         else:
@@ -284,7 +285,7 @@ class CheckerPy:
 
     def proxy(self, value):
         'See IChecker'
-        if isinstance(value, Proxy):
+        if issubclass(type(value), Proxy):
             return value
         checker = getattr(value, '__Security_checker__', None)
         if checker is None:
diff --git a/src/zope/security/decorator.py b/src/zope/security/decorator.py
index 5ad9649..97834f9 100644
--- a/src/zope/security/decorator.py
+++ b/src/zope/security/decorator.py
@@ -36,7 +36,7 @@ class DecoratedSecurityCheckerDescriptor:
             return self
         else:
             proxied_object = getProxiedObject(inst)
-            if isinstance(proxied_object, Proxy):
+            if issubclass(type(proxied_object), Proxy):
                 checker = getChecker(proxied_object)
             else:
                 checker = getattr(proxied_object, '__Security_checker__', None)
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 1a7bf82..b2d152d 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -353,7 +353,14 @@ for name in ['__iadd__',
     setattr(ProxyPy, name, _check_name_inplace(meth))
 
 
+def _is_proxy(object):
+    # Go by the real type, any object may say what it likes in __class__.
+    return issubclass(type(object), ProxyPy)
+
+
 def getCheckerPy(proxy):
+    if not _is_proxy(proxy):
+        raise TypeError('getChecker argument must be a proxy')
     return super(ProxyPy, proxy).__getattribute__('_checker')
 
 
@@ -361,7 +368,7 @@ _builtin_isinstance = sys.modules['builtins'].isinstance
 
 
 def getObjectPy(proxy):
-    if not _builtin_isinstance(proxy, ProxyPy):
+    if not (_builtin_isinstance(proxy, ProxyPy) and _is_proxy(proxy)):
         return proxy
     return super(ProxyPy, proxy).__getattribute__('_wrapped')
 
-- 
2.43.0


From 8e5673ae620630e1e43d3fdce2ee35b72de6233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:45 +0000
Subject: [PATCH 14/35] fix: no Python proxy without a checker, however it is
 made

---
 src/zope/security/proxy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index b2d152d..1d4d663 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -103,6 +103,8 @@ class ProxyPy(PyProxyBase):
     __slots__ = ('_wrapped', '_checker')
 
     def __new__(cls, value, checker):
+        if checker is None:
+            raise ValueError('checker may not be None')
         inst = super().__new__(cls)
         inst._wrapped = value
         inst._checker = checker
@@ -110,8 +112,7 @@ class ProxyPy(PyProxyBase):
 
     def __init__(self, value, checker):
         # __new__ has set everything up, nothing may change it later.
-        if checker is None:
-            raise ValueError('checker may now be None')
+        pass
 
     # Attribute protocol
     def __getattribute__(self, name):
-- 
2.43.0


From 7c67d52c3b2ebad39f14f6e30707579e35500ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:47 +0000
Subject: [PATCH 15/35] fix: tagged values of proxied interfaces cannot be set

Interfaces and their methods allow reading by default, but the checkers also
granted setTaggedValue, so anybody could change them.
---
 src/zope/security/checker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index b7143d6..6d059e6 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -930,6 +930,11 @@ _default_checkers = {
     abc.ABCMeta: _typeChecker,
 }
 
+# Tagged values may be read, but not changed.
+for _type in type(Interface), zope.interface.interface.Method:
+    del _default_checkers[_type].get_permissions['setTaggedValue']
+del _type
+
 
 def _fixup_dictlike(dict_type):
     empty_dict = dict_type()
-- 
2.43.0


From eb7c218a4d1b7ac8839aa6debea04dde4d46524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:14 +0000
Subject: [PATCH 16/35] fix: a name mentioned twice with the same permission is
 no duplication

The checker constructors compared permission ids by identity, so that
naming the same permission twice by equal but distinct strings was
refused with a DuplicationError.
---
 src/zope/security/checker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 6d059e6..524c6ee 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -381,7 +381,7 @@ def NamesChecker(names=(), permission_id=CheckerPublic, **__kw__):
     data = {}
     data.update(__kw__)
     for name in names:
-        if data.get(name, permission_id) is not permission_id:
+        if data.get(name, permission_id) != permission_id:
             raise DuplicationError(name)
         data[name] = permission_id
 
@@ -422,12 +422,12 @@ def MultiChecker(specs):
             if IInterface.providedBy(names):
                 names = names.names(all=True)
             for name in names:
-                if data.get(name, permission_id) is not permission_id:
+                if data.get(name, permission_id) != permission_id:
                     raise DuplicationError(name)
                 data[name] = permission_id
         else:
             for name, permission_id in spec.items():
-                if data.get(name, permission_id) is not permission_id:
+                if data.get(name, permission_id) != permission_id:
                     raise DuplicationError(name)
                 data[name] = permission_id
 
-- 
2.43.0


From d0d8038ab28d36459c5eb15a2ed74f4177a5701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 17/35] fix: the module require directive accepts interfaces,
 as documented

---
 src/zope/security/metadirectives.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/security/metadirectives.py b/src/zope/security/metadirectives.py
index 34cee99..37e9423 100644
--- a/src/zope/security/metadirectives.py
+++ b/src/zope/security/metadirectives.py
@@ -198,6 +198,15 @@ class IRequire(Interface):
         value_type=PythonIdentifier(),
         required=False)
 
+    interface = Tokens(
+        title="Interface",
+        description=("Interfaces whose names to require permission for. The "
+                     "permission will be required for all of the names "
+                     "defined by the interface(s). Multiple interfaces can "
+                     "be supplied."),
+        value_type=GlobalInterface(),
+        required=False)
+
     permission = Permission(
         title="Permission ID",
         description="The ID of the permission to require.")
-- 
2.43.0


From fca46d747e540969a2a52c9d812d839c74d7b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 18/35] fix: a redefinition of a permission does not leak out
 of its scope

When an enclosing scope had redefined any permission, a redefinition in a
nested scope or an included file was recorded in the enclosing scope's
mapping and remained in effect there.
---
 src/zope/security/zcml.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/zcml.py b/src/zope/security/zcml.py
index d24e04d..38591e3 100644
--- a/src/zope/security/zcml.py
+++ b/src/zope/security/zcml.py
@@ -120,7 +120,13 @@ def redefinePermission(_context, from_, to):
     _context = _context.context
 
     # check if context has any permission mappings yet
-    if not hasattr(_context, 'permission_mapping'):
-        _context.permission_mapping = {}
-
-    _context.permission_mapping[from_] = to
+    mapping = getattr(_context, 'permission_mapping', None)
+    if mapping is None:
+        mapping = {}
+    elif mapping is getattr(getattr(_context, 'context', None),
+                            'permission_mapping', None):
+        # It is that of an enclosing scope, which must not be affected.
+        mapping = dict(mapping)
+
+    mapping[from_] = to
+    _context.permission_mapping = mapping
-- 
2.43.0


From b14a02834bfd70f2d7a762aee3141dba502a70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:34 +0000
Subject: [PATCH 19/35] fix: a permission can be redefined again

The name to redefine was itself replaced according to the redefinitions in
effect, so that redefining a permission a second time (say, in an included
file) redefined its first substitute instead.
---
 src/zope/security/zcml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/zcml.py b/src/zope/security/zcml.py
index 38591e3..42bff83 100644
--- a/src/zope/security/zcml.py
+++ b/src/zope/security/zcml.py
@@ -102,10 +102,17 @@ def permission(_context, id, title, description=''):
     utility(_context, IPermission, permission, name=id)
 
 
+class OriginalPermission(Permission):
+    """A permission as it is named, whatever it has been redefined to."""
+
+    def fromUnicode(self, value):
+        return Id.fromUnicode(self, value)
+
+
 class IRedefinePermission(Interface):
     """Define a permission to replace another permission."""
 
-    from_ = Permission(
+    from_ = OriginalPermission(
         title="Original permission",
         description="Original permission ID to redefine.",
         required=True)
-- 
2.43.0


From a749ece2d4faf2495c7249845d96a00b9f968d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:51 +0000
Subject: [PATCH 20/35] fix: accept a registered permission that happens to be
 false

checkPermission took a registered permission whose truth value is false (an
IPermission implementation with a __len__, say) for an undefined one.
---
 src/zope/security/permission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/permission.py b/src/zope/security/permission.py
index 9103477..33395e8 100644
--- a/src/zope/security/permission.py
+++ b/src/zope/security/permission.py
@@ -49,7 +49,7 @@ def checkPermission(context, permission_id):
     """
     if permission_id is CheckerPublic:
         return
-    if not queryUtility(IPermission, permission_id, context=context):
+    if queryUtility(IPermission, permission_id, context=context) is None:
         raise ValueError("Undefined permission ID", permission_id)
 
 
-- 
2.43.0


From 939aa1615bdbabdeaff9f2d9c634404cd2790c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 21/35] fix: watching checkers does not fail for objects that
 cannot be shown

The messages contain the repr() of the object; when that raised, a refused
check (with higher verbosity, any check) raised its error instead.
---
 src/zope/security/checker.py | 43 ++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 524c6ee..9890482 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -595,6 +595,17 @@ class CombinedChecker(Checker):
                 raise unauthorized_exception
 
 
+def _log_repr(object):
+    # Watching must not interfere, whatever the object does.
+    try:
+        return repr(object)
+    except Exception:
+        return _object_repr(object)
+
+
+_object_repr = object.__repr__
+
+
 class CheckerLoggingMixin:
     """
     Debugging mixin for checkers.
@@ -620,18 +631,18 @@ class CheckerLoggingMixin:
             super().check(object, name)
             if self.verbosity > 1:
                 if name in _available_by_default:
-                    self._log('[CHK] + Always available: %s on %r'
-                              % (name, object), 2)
+                    self._log('[CHK] + Always available: %s on %s'
+                              % (name, _log_repr(object)), 2)
                 else:
                     self._log(
-                        f'[CHK] + Granted: {name} on {object!r}', 2)
+                        f'[CHK] + Granted: {name} on {_log_repr(object)}', 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized: {name} on {object!r}')
+                f'[CHK] - Unauthorized: {name} on {_log_repr(object)}')
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden: {name} on {object!r}')
+                f'[CHK] - Forbidden: {name} on {_log_repr(object)}')
             raise
 
     def check_getattr(self, object, name):
@@ -640,20 +651,20 @@ class CheckerLoggingMixin:
             if self.verbosity > 1:
                 if name in _available_by_default:
                     self._log(
-                        '[CHK] + Always available getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Always available getattr: %s on %s'
+                        % (name, _log_repr(object)), 2)
                 else:
                     self._log(
-                        '[CHK] + Granted getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Granted getattr: %s on %s'
+                        % (name, _log_repr(object)), 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized getattr: {name} on {object!r}'
+                f'[CHK] - Unauthorized getattr: {name} on {_log_repr(object)}'
             )
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden getattr: {name} on {object!r}')
+                f'[CHK] - Forbidden getattr: {name} on {_log_repr(object)}')
             raise
 
     __setitem__ = check_getattr
@@ -663,16 +674,16 @@ class CheckerLoggingMixin:
             super().check_setattr(object, name)
             if self.verbosity > 1:
                 self._log(
-                    '[CHK] + Granted setattr: {} on {!r}'.format(
-                        name, object), 2)
+                    '[CHK] + Granted setattr: {} on {}'.format(
+                        name, _log_repr(object)), 2)
         except Unauthorized:
             self._log(
-                '[CHK] - Unauthorized setattr: {} on {!r}'.format(
-                    name, object))
+                '[CHK] - Unauthorized setattr: {} on {}'.format(
+                    name, _log_repr(object)))
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden setattr: {name} on {object!r}')
+                f'[CHK] - Forbidden setattr: {name} on {_log_repr(object)}')
             raise
 
 
-- 
2.43.0


From 90784d8def0c10b05bc5290df082c1fad519f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 22/35] fix: an attribute name cannot be one thing to the
 checker and another to the object

---
 src/zope/security/_proxy.c | 26 ++++++++++++++++++++++++--
 src/zope/security/proxy.py | 12 ++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index ea7dd6a..21cee99 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -363,25 +363,47 @@ proxy_iternext(SecurityProxy *self)
   return result;
 }
 
+/* Return a new reference to the name as a plain string: an instance of a
+   subclass of str could be equal to one name for the checker and to another
+   one for the object. */
+static PyObject *
+plain_name(PyObject *name)
+{
+  if (IS_STRING(name))
+    return PyUnicode_FromObject(name);
+  Py_INCREF(name);
+  return name;
+}
+
 static PyObject *
 proxy_getattro(SecurityProxy *self, PyObject *name)
 {
   PyObject *result = NULL;
 
+  name = plain_name(name);
+  if (name == NULL)
+    return NULL;
   if (check(self, str_check_getattr, name) >= 0)
     {
       result = PyObject_GetAttr(self->proxy.proxy_object, name);
       PROXY_RESULT(self, result);
     }
+  Py_DECREF(name);
   return result;
 }
 
 static int
 proxy_setattro(SecurityProxy *self, PyObject *name, PyObject *value)
 {
+  int result = -1;
+
+  name = plain_name(name);
+  if (name == NULL)
+    return -1;
   if (check(self, str_check_setattr, name) >= 0)
-    return PyObject_SetAttr(self->proxy.proxy_object, name, value);
-  return -1;
+    result = PyObject_SetAttr(self->proxy.proxy_object, name, value);
+  Py_DECREF(name);
+  return result;
 }
 
 static PyObject *
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 1d4d663..c76b8e5 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -89,6 +89,14 @@ def _is_inside(proxy, frame):
             or frame.f_globals is sys.modules[PyProxyBase.__module__].__dict__)
 
 
+def _plain_name(name):
+    # An instance of a subclass of str could be equal to one name for the
+    # checker and to another one for the object.
+    if issubclass(type(name), str):
+        return str.__str__(name)
+    return name
+
+
 class ProxyPy(PyProxyBase):
     """
     The pure-Python reference implementation of a security proxy.
@@ -116,6 +124,7 @@ class ProxyPy(PyProxyBase):
 
     # Attribute protocol
     def __getattribute__(self, name):
+        name = _plain_name(name)
         if name in ('_wrapped', '_checker'):
             # Only allow _wrapped and _checker to be accessed from inside.
             frame = sys._getframe(1)
@@ -178,12 +187,14 @@ class ProxyPy(PyProxyBase):
         # but we're consistent. We would provide a better error
         # message or even subclass of AttributeError, but that's liable to
         # break (doc)tests.
+        name = _plain_name(name)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_getattr(wrapped, name)
         raise AttributeError(name)
 
     def __setattr__(self, name, value):
+        name = _plain_name(name)
         if name in ('_wrapped', '_checker'):
             if not _is_inside(self, sys._getframe(1)):
                 raise AttributeError(name)
@@ -194,6 +205,7 @@ class ProxyPy(PyProxyBase):
         setattr(wrapped, name, value)
 
     def __delattr__(self, name):
+        name = _plain_name(name)
         if name in ('_wrapped', '_checker'):
             raise AttributeError()
         wrapped = super().__getattribute__('_wrapped')
-- 
2.43.0


From f7598a74cb1ce9cd5c1997c5209d0f7ef4b10243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 23/35] fix: keep the permission alive while the C checker asks
 the policy

---
 src/zope/security/_zope_security_checker.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 19961e3..2c61896 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -98,33 +98,41 @@ static int
 checkPermission(PyObject *permission, PyObject *object, PyObject *name)
 {
       PyObject *interaction, *r;
-      int i;
+      int i, result = -1;
 
 /*          if thread_local.interaction.checkPermission(permission, object): */
 /*                 return */
       interaction = PyObject_GetAttr(thread_local, str_interaction);
       if (interaction == NULL)
         return -1;
+      /* The checker's dictionary may lose the permission in the meantime. */
+      Py_INCREF(permission);
       r = PyObject_CallMethodObjArgs(interaction, str_checkPermission,
                                      permission, object, NULL);
       Py_DECREF(interaction);
       if (r == NULL)
-        return -1;
+        goto done;
       i = PyObject_IsTrue(r);
       Py_DECREF(r);
       if (i < 0)
-        return -1;
+        goto done;
       if (i)
-        return 0;
+        {
+          result = 0;
+          goto done;
+        }
 /*             else: */
 /*                 __traceback_supplement__ = (TracebackSupplement, object) */
 /*                 raise Unauthorized(object, name, permission) */
       r = Py_BuildValue("OOO", object, name, permission);
       if (r == NULL)
-        return -1;
+        goto done;
       PyErr_SetObject(Unauthorized, r);
       Py_DECREF(r);
-      return -1;
+
+ done:
+      Py_DECREF(permission);
+      return result;
 }
 
 
-- 
2.43.0


From 7d8b74538e135e6fcdbad7d77f93c11d50b419c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 24/35] fix: let an error of an object's __class__ through in
 the C selectChecker

---
 src/zope/security/_zope_security_checker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 2c61896..bf50550 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -526,11 +526,16 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+  if (checker == _defaultChecker)
     {
-      Py_INCREF(Py_None);
-      return Py_None;
+      int isexc = PyObject_IsInstance(object, PyExc_Exception);
+      if (isexc < 0)
+        return NULL;
+      if (isexc)
+        {
+          Py_INCREF(Py_None);
+          return Py_None;
+        }
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From b51cc786cf3781929b30b1c022e8a322c58b2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 25/35] fix: initialising a C checker again does not leak its
 permissions

---
 src/zope/security/_zope_security_checker.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index bf50550..7c934ba 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -370,7 +370,7 @@ Checker_traverse(Checker *self, visitproc visit, void *arg)
 static int
 Checker_init(Checker *self, PyObject *args, PyObject *kwds)
 {
-  PyObject *getperms, *setperms=NULL;
+  PyObject *getperms, *setperms=NULL, *oldget, *oldset;
   static char *kwlist[] = {"get_permissions", "set_permissions", NULL};
 
   if (! PyArg_ParseTupleAndKeywords(args, kwds, "O!|O!:Checker", kwlist,
@@ -378,10 +378,14 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
                                     &PyDict_Type, &setperms))
     return -1;
 
+  oldget = self->getperms;
+  oldset = self->setperms;
   Py_INCREF(getperms);
   self->getperms = getperms;
   Py_XINCREF(setperms);
   self->setperms = setperms;
+  Py_XDECREF(oldget);
+  Py_XDECREF(oldset);
 
   return 0;
 }
-- 
2.43.0


From 0db82f50dab385b66d6237c59ac5fa04973480f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:11 +0000
Subject: [PATCH 26/35] fix: long chains of C proxies are freed without
 overflowing the stack

---
 src/zope/security/_proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 21cee99..e4bf1c3 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -307,8 +307,11 @@ static void
 proxy_dealloc(SecurityProxy *self)
 {
   PyObject_GC_UnTrack((PyObject*)self);
+  /* Do not overflow the C stack for a long chain of proxies. */
+  Py_TRASHCAN_BEGIN(self, proxy_dealloc)
   proxy_clear(self);
   SecurityProxyType.tp_base->tp_dealloc((PyObject*)self);
+  Py_TRASHCAN_END
 }
 
 static int
-- 
2.43.0


From c184cfdf579a35dab43bafe51fe656cf18b488c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 27/35] fix: deleting an item of a C checker does not crash

---
 src/zope/security/_zope_security_checker.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 7c934ba..e430173 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -147,6 +147,13 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
   PyObject *permission=NULL;
   int operator;
 
+  if (name == NULL)     /* del checker[object] */
+    {
+      PyErr_SetString(PyExc_TypeError,
+                      "checkers don't support item deletion");
+      return -1;
+    }
+
 /*         permission = self._permission_func(name) */
   if (self->getperms)
     permission = PyDict_GetItem(self->getperms, name);
-- 
2.43.0


From f050575b37f11641f75d01c83beb6e5cedb0da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 28/35] fix: only an object without __iter__ is let through by
 the C checker

---
 src/zope/security/_zope_security_checker.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index e430173..3c5c15d 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -191,11 +191,20 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
-          && ! PyObject_HasAttr(object, name))
-        /* We want an attr error if we're asked for __iter__ and we don't
-           have it. We'll get one by allowing the access. */
-        return 0;
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0)
+        {
+          PyObject *iter = PyObject_GetAttr(object, name);
+          if (iter == NULL)
+            {
+              if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+                return -1;
+              /* We want an attr error if we're asked for __iter__ and we
+                 don't have it. We'll get one by allowing the access. */
+              PyErr_Clear();
+              return 0;
+            }
+          Py_DECREF(iter);
+        }
     }
 
   {
-- 
2.43.0


From 3ccb3d7dfa92a1b7e46d0a403655b77a2a3dc3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:16 +0000
Subject: [PATCH 29/35] fix: remove exactly the given participation, not the
 first one equal to it

---
 src/zope/security/simplepolicies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/simplepolicies.py b/src/zope/security/simplepolicies.py
index 7035e07..2cb5700 100644
--- a/src/zope/security/simplepolicies.py
+++ b/src/zope/security/simplepolicies.py
@@ -54,7 +54,9 @@ class ParanoidSecurityPolicy:
         if participation.interaction is not self:
             raise ValueError("%r does not belong to this interaction"
                              % participation)
-        self.participations.remove(participation)
+        # (Other participations may be equal to it.)
+        index = [p is participation for p in self.participations].index(True)
+        del self.participations[index]
         participation.interaction = None
 
     def checkPermission(self, permission, object):
-- 
2.43.0


From fb6fcd82a01faec82c178c777b15ed2c93452c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 30/35] fix: a C checker does not proxy an instance of a
 subclass of Proxy again

---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 3c5c15d..a915fad 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -285,9 +285,9 @@ Checker_proxy(Checker *self, PyObject *value)
 {
   PyObject *checker, *r;
 
-/*        if type(value) is Proxy: */
+/*        if issubclass(type(value), Proxy): */
 /*            return value */
-  if ((PyObject*)Py_TYPE(value) == Proxy)
+  if (PyObject_TypeCheck(value, (PyTypeObject*)Proxy))
     {
       Py_INCREF(value);
       return value;
-- 
2.43.0


From 5d3631e71ae41d0d6389fb0e7da1730db11228ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 31/35] fix: the C checker reports errors in looking up an
 object's own checker

It went on to choose a checker by type, which may be a weaker one or none.
---
 src/zope/security/_zope_security_checker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index a915fad..322dfd6 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -298,6 +298,8 @@ Checker_proxy(Checker *self, PyObject *value)
 /*         if checker is None: */
   if (checker == NULL)
     {
+      if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+        return NULL;
       PyErr_Clear();
 
 /*             checker = selectChecker(value) */
-- 
2.43.0


From da517e5b0b1b7e09c1a567aad8948a4dbfa50ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 32/35] fix: the C checker does not believe an object that
 claims to be an exception

---
 src/zope/security/_zope_security_checker.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 322dfd6..470e964 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -548,16 +548,12 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker)
+  /* (Any object may claim to be an exception in its __class__.) */
+  if (checker == _defaultChecker
+      && PyObject_TypeCheck(object, (PyTypeObject *)PyExc_Exception))
     {
-      int isexc = PyObject_IsInstance(object, PyExc_Exception);
-      if (isexc < 0)
-        return NULL;
-      if (isexc)
-        {
-          Py_INCREF(Py_None);
-          return Py_None;
-        }
+      Py_INCREF(Py_None);
+      return Py_None;
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From 6e473ec7437f95307e431bacbe3c8f24e8a7a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 33/35] fix: iterating over an object by indexing needs the
 permission to index it

The name __iter__ was granted for every object without one, also if Python
iterates over it by calling its __getitem__, which was not checked.
---
 src/zope/security/_zope_security_checker.c | 17 ++++++++++++++++-
 src/zope/security/checker.py               |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 470e964..4437600 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -45,6 +45,7 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 DECLARE_STRING(checkPermission);
 DECLARE_STRING(__Security_checker__);
+DECLARE_STRING(__getitem__);
 DECLARE_STRING(interaction);
 
 #define CLEAR(O) if (O) {PyObject *t = O; O = 0; Py_DECREF(t); }
@@ -201,7 +202,20 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
               /* We want an attr error if we're asked for __iter__ and we
                  don't have it. We'll get one by allowing the access. */
               PyErr_Clear();
-              return 0;
+
+/*         if hasattr(object, '__getitem__'): */
+/*             CheckerPy.check(self, object, '__getitem__') */
+              iter = PyObject_GetAttr(object, str___getitem__);
+              if (iter == NULL)
+                {
+                  if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+                    return -1;
+                  PyErr_Clear();
+                  return 0;
+                }
+              Py_DECREF(iter);
+              /* It is iterated over by indexing. */
+              return Checker_check_int(self, object, str___getitem__);
             }
           Py_DECREF(iter);
         }
@@ -622,6 +636,7 @@ if((str_##S = INTERN(#S)) == NULL) return MOD_ERROR_VAL
 
   INIT_STRING(checkPermission);
   INIT_STRING(__Security_checker__);
+  INIT_STRING(__getitem__);
   INIT_STRING(interaction);
 
   if ((_checkers = PyDict_New()) == NULL)
diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 9890482..87da12b 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -281,6 +281,10 @@ class CheckerPy:
             __traceback_supplement__ = (TracebackSupplement, object)
             raise ForbiddenAttribute(name, object)
 
+        if hasattr(object, '__getitem__'):
+            # It is iterated over by indexing.
+            CheckerPy.check(self, object, '__getitem__')
+
     check_getattr = check  # 'See IChecker'
 
     def proxy(self, value):
-- 
2.43.0


From 635148fac6963022e584af622647807d26e07013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:47 +0000
Subject: [PATCH 34/35] fix: the C checker keeps its permissions while it looks
 a name up

A __hash__ or __eq__ of the name may take the dictionary away from the
checker, which was then used after it had been freed.
---
 src/zope/security/_zope_security_checker.c | 78 ++++++++++++----------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 4437600..f6d1e69 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -55,23 +55,37 @@ typedef struct {
         PyObject *getperms, *setperms;
 } Checker;
 
+/* Look a name up in a dictionary of permissions (or NULL). Return a new
+   reference, or NULL without setting an error. (The name may be of a class
+   with a __hash__ or __eq__ that takes the dictionary away from the checker.)
+ */
+
+static PyObject *
+getPermission(PyObject *permissions, PyObject *name)
+{
+  PyObject *permission;
+
+  if (permissions == NULL)
+    return NULL;
+  Py_INCREF(permissions);
+  permission = PyDict_GetItem(permissions, name);
+  Py_XINCREF(permission);
+  Py_DECREF(permissions);
+  return permission;
+}
+
 /*     def permission_id(self, name): */
 static PyObject *
 Checker_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._permission_func(name) */
-  PyObject *result;
+  PyObject *result = getPermission(self->getperms, name);
 
-  if (self->getperms)
+  if (result == NULL)
     {
-      result = PyDict_GetItem(self->getperms, name);
-      if (result == NULL)
-        result = Py_None;
+      Py_INCREF(Py_None);
+      result = Py_None;
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -80,18 +94,13 @@ static PyObject *
 Checker_setattr_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._setattr_permission_func(name) */
-  PyObject *result;
+  PyObject *result = getPermission(self->setperms, name);
 
-  if (self->setperms)
+  if (result == NULL)
     {
-      result = PyDict_GetItem(self->setperms, name);
-      if (result == NULL)
-        result = Py_None;
+      Py_INCREF(Py_None);
+      result = Py_None;
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -145,8 +154,8 @@ checkPermission(PyObject *permission, PyObject *object, PyObject *name)
 static int
 Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 {
-  PyObject *permission=NULL;
-  int operator;
+  PyObject *permission;
+  int operator, result;
 
   if (name == NULL)     /* del checker[object] */
     {
@@ -156,22 +165,20 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     }
 
 /*         permission = self._permission_func(name) */
-  if (self->getperms)
-    permission = PyDict_GetItem(self->getperms, name);
+  permission = getPermission(self->getperms, name);
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission == CheckerPublic)
-        return 0;
-
-      if (checkPermission(permission, object, name) < 0)
-        return -1;
-      return 0;
+      result = 0;
+      if (permission != CheckerPublic)
+        result = checkPermission(permission, object, name);
+      Py_DECREF(permission);
+      return result;
     }
-
+  Py_XDECREF(permission);
 
   operator = (IS_STRING(name)
               && PyUnicode_GetLength(name) >= 2
@@ -256,27 +263,30 @@ Checker_check(Checker *self, PyObject *args)
 static PyObject *
 Checker_check_setattr(Checker *self, PyObject *args)
 {
-  PyObject *object, *name, *permission=NULL;
+  PyObject *object, *name, *permission;
+  int result = 0;
 
   if (!PyArg_ParseTuple(args, "OO", &object, &name))
     return NULL;
 
 /*         permission = self._permission_func(name) */
-  if (self->setperms)
-    permission = PyDict_GetItem(self->setperms, name);
+  permission = getPermission(self->setperms, name);
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission != CheckerPublic
-          && checkPermission(permission, object, name) < 0)
+      if (permission != CheckerPublic)
+        result = checkPermission(permission, object, name);
+      Py_DECREF(permission);
+      if (result < 0)
         return NULL;
 
       Py_INCREF(Py_None);
       return Py_None;
     }
+  Py_XDECREF(permission);
 
 /*         __traceback_supplement__ = (TracebackSupplement, object) */
 /*         raise ForbiddenAttribute, (name, object) */
-- 
2.43.0


From 9572a8eb1881ef5855da35de2955065c4c14ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 35/35] fix: a scope leaves a current interaction alone even if
 it is false

---
 src/zope/security/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/testing.py b/src/zope/security/testing.py
index f725912..7e625e4 100644
--- a/src/zope/security/testing.py
+++ b/src/zope/security/testing.py
@@ -93,7 +93,7 @@ def interaction(principal_id, **kw):
     A context manager for running an interaction for the given
     principal ID.
     """
-    if zope.security.management.queryInteraction():
+    if zope.security.management.queryInteraction() is not None:
         # There already is an interaction. Great. Leave it alone.
         yield
     else:
-- 
2.43.0

