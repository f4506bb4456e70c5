From c1fdc4b0bbf95bd73f50574794c699632a869f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 01/62] fix: adding a list or dict into a tracked list or dict
 recursed forever

---
 jsonclasses/jsonclassify.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e226dc8..cde24d7 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -802,12 +802,13 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
 
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
+    # replace silently, this change is already being notified
     if isinstance(val, dict):
-        odict[key] = to_owned_dict(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_dict(
+            self, val, concat_keypath(odict.keypath, key)))
     if isinstance(val, list):
-        odict[key] = to_owned_list(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_list(
+            self, val, concat_keypath(odict.keypath, key)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -865,12 +866,13 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
+    # replace silently, this change is already being notified
     if isinstance(val, dict):
-        olist[idx] = to_owned_dict(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_dict(
+            self, val, concat_keypath(olist.keypath, idx)))
     if isinstance(val, list):
-        olist[idx] = to_owned_list(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_list(
+            self, val, concat_keypath(olist.keypath, idx)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 9880b6cb9325b2954710233ba311707305fc3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 02/62] fix: persisted_modified_fields raised on nested
 modifications

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index cde24d7..bf177e7 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -300,7 +300,8 @@ def persisted_modified_fields(self: JObject) -> tuple[str]:
     retval: list[str] = []
     cdef = self.__class__.cdef
     for name in self._modified_fields:
-        if cdef.field_named(name).fdef.fstore != FStore.TEMP:
+        field = cdef.field_named(initial_keypath(name))
+        if field.fdef.fstore != FStore.TEMP:
             retval.append(name)
     return tuple(retval)
 
-- 
2.43.0


From 152fab6cbe942c733380b16d6ffcedc25acefffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 03/62] fix: tracked lists mishandle iterators and stepped or
 negative slices

---
 jsonclasses/olist.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 456e1b3..3d7c973 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -52,6 +52,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         self.owner.__olist_add__(self, len(self) - 1, value)
 
     def extend(self, values: Iterable[_T]) -> None:
+        values = list(values)
         curlen = len(self)
         if len(values) > 0:
             self.owner.__olist_will_change__(self)
@@ -99,6 +100,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         return super().__add__(x)
 
     def __iadd__(self, x: Iterable[_T]) -> OwnedList[_T]:
+        x = list(x)
         if len(x) > 0:
             self.owner.__olist_will_change__(self)
         curlen = len(self)
@@ -147,17 +149,14 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
             self.owner.__olist_add__(self, idx, args[1])
         elif isinstance(args[0], slice):
             slc: slice = args[0]
+            values = list(args[1])
             remove_list = self[slc]
-            start = slc.start or 0
-            step = slc.step or 1
-            if start < 0:
-                start = len_self + start
-            start = min(max(0, start), len_self)
+            start, _, step = slc.indices(len_self)
             self.owner.__olist_will_change__(self)
-            super().__setitem__(*args)
+            super().__setitem__(slc, values)
             for item in remove_list:
                 self.owner.__olist_del__(self, item)
-            for item in args[1]:
+            for item in values:
                 self.owner.__olist_add__(self, start, item)
                 start += step
         else:
-- 
2.43.0


From 720e3553f1f419a2319b6b6b7c03fabfce761c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 04/62] fix: inserting into a tracked list at a negative index
 reported a wrong position

---
 jsonclasses/olist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 3d7c973..597fba9 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -65,7 +65,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         curlen = len(self)
         self.owner.__olist_will_change__(self)
         super().insert(index, value)
-        idx = min(curlen, index)
+        idx = min(curlen, index) if index >= 0 else max(0, curlen + index)
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
-- 
2.43.0


From 9dd1170a07a39744f8ff9f1f2687ef58dc5a9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 05/62] fix: setdefault on a tracked dict lost track of the
 value it set

---
 jsonclasses/odict.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index aa941bc..dadf5da 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -77,16 +77,14 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
     def setdefault(self, *args) -> _VT:
         will_set = False
         len_args = len(args)
-        if len_args == 2:
-            try:
-                self[args[0]]
-            except KeyError:
-                will_set = True
+        if 1 <= len_args <= 2:
+            will_set = args[0] not in self
         if will_set:
             self.owner.__odict_will_change__(self)
         retval = super().setdefault(*args)
         if will_set:
-            self.owner.__odict_add__(self, args[0], args[1])
+            self.owner.__odict_add__(self, args[0], retval)
+            retval = self[args[0]]
         return retval
 
     def update(self, *args, **kwargs: _VT) -> None:
-- 
2.43.0


From fd2581e4f3df28935d5a44b8e64c2eb18c782424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:43 +0000
Subject: [PATCH 06/62] fix: tracked dicts dropped what update and |= read from
 an iterator

---
 jsonclasses/odict.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index dadf5da..9c78c7a 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -98,10 +98,10 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         elif isinstance(args[0], Iterable):
             new_dict = dict(args[0], **kwargs)
         else:
-            new_dict = {}
+            new_dict = dict(args[0], **kwargs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        super().update(*args, **kwargs)
+        super().update(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
@@ -134,7 +134,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         new_dict = dict(rhs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        retval = super().__ior__(rhs)
+        retval = super().__ior__(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
-- 
2.43.0


From c7c2812625e3132d5ffe6541ae04b7cbde039e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 07/62] fix: copying a field definition copied the whole class
 definition

---
 jsonclasses/cdef.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 27da2c8..d1c70d4 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -100,6 +100,12 @@ class CDef:
                 self._auth_by_fields.append(jfield)
         self._tuple_fields: tuple[JField, ...] = tuple(self._list_fields)
 
+    def __deepcopy__(self: CDef, memo: dict[int, Any]) -> CDef:
+        """Class definitions are unique. Copying a field definition never
+        copies the class definition it belongs to.
+        """
+        return self
+
     @property
     def cls(self: CDef) -> type:
         """The JSON class on which this class definition is defined.
-- 
2.43.0


From 0a7b35c6fca92e4726acb21d2111a7f1fe1d588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:51 +0000
Subject: [PATCH 08/62] fix: a sort failing half way left a tracked list
 reordered but not modified

---
 jsonclasses/olist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 597fba9..587bea9 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -75,8 +75,11 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
 
     def sort(self, **kwargs) -> None:  # TODO: fix argument type hint
         self.owner.__olist_will_change__(self)
-        super().sort(**kwargs)
-        self.owner.__olist_sor__(self)
+        try:
+            super().sort(**kwargs)
+        finally:
+            # a failed sort may have reordered a part of the list
+            self.owner.__olist_sor__(self)
 
     def clear(self) -> None:
         items = [item for item in self]
-- 
2.43.0


From a6d55131b3ac872ffc19a51cb91841f9c3690eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 09/62] fix: the remembered previous value was the live
 container and changed with it

---
 jsonclasses/jsonclassify.py | 21 +++++++--------------
 jsonclasses/outils.py       | 10 ++++++++++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index bf177e7..bc402c6 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -12,9 +12,7 @@ from .isjsonclass import isjsonobject
 from .ograph import OGraph
 from .odict import OwnedDict
 from .olist import OwnedList
-from .outils import (
-    to_owned_dict, to_owned_list, unowned_copy_dict, unowned_copy_list
-)
+from .outils import to_owned_dict, to_owned_list, unowned_copy
 from .keypath import (
     concat_keypath, initial_keypath, single_key_args, compound_key_args,
     keypath_split
@@ -733,7 +731,8 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
         if self.__class__.cdef.jconf.reset_all_fields or \
                 field.fdef.has_reset_modifier:
             if name not in self.previous_values:
-                self.previous_values[name] = getattr(self, name)
+                self.previous_values[name] = unowned_copy(
+                    getattr(self, name))
     # make list and dict assignments owned and monitored
     if isinstance(value, list):
         value = to_owned_list(self, value, name)
@@ -794,11 +793,8 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
+            if field.fdef.ftype in [FType.DICT, FType.LIST]:
+                self.previous_values[name] = unowned_copy(
                     getattr(self, name))
 
 
@@ -837,11 +833,8 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
+            if field.fdef.ftype in [FType.DICT, FType.LIST]:
+                self.previous_values[name] = unowned_copy(
                     getattr(self, name))
 
 
diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 72804a6..34a0923 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -67,3 +67,13 @@ def unowned_copy_list(any_list: list[T]) -> list[T]:
         else:
             retval.append(v)
     return retval
+
+
+def unowned_copy(value: Any) -> Any:
+    """Copy a value if it is a dict or a list. Return it as is otherwise.
+    """
+    if isinstance(value, dict):
+        return unowned_copy_dict(value)
+    if isinstance(value, list):
+        return unowned_copy_list(value)
+    return value
-- 
2.43.0


From dc6c818f11fba2dd74677f344e59b971ed556ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:37 +0000
Subject: [PATCH 10/62] fix: changing a container of a new object in place
 recorded a previous value

---
 jsonclasses/jsonclassify.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index bc402c6..9ced806 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -785,6 +785,9 @@ def __getattribute__(self: JObject, name: str, default: Any = None) -> Any:
 
 
 def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
+    # a new object doesn't have previous values
+    if self.is_new:
+        return
     # record previous value
     name = initial_keypath(odict.keypath)
     field = self.__class__.cdef.field_named(name)
@@ -820,6 +823,9 @@ def __odict_del__(self, odict: OwnedDict, val: Any) -> None:
 
 
 def __olist_will_change__(self, olist: OwnedList) -> None:
+    # a new object doesn't have previous values
+    if self.is_new:
+        return
     # record previous value
     name = initial_keypath(olist.keypath)
     try:
-- 
2.43.0


From 9f8a5862dfb631f027be883b2025712112a28564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:01 +0000
Subject: [PATCH 11/62] fix: field permission checks given as callables raised
 AttributeError

---
 jsonclasses/modifiers/cancu_modifier.py | 10 +++++-----
 jsonclasses/modifiers/canr_modifier.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 9c336ae..71745c0 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -21,15 +21,15 @@ class CanCUModifier(Modifier):
         if ctx.operator is None:
             ctx.raise_vexc('operator not present')
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return
             if result is True:
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 77dc639..44b4c38 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -22,15 +22,15 @@ class CanRModifier(Modifier):
         if ctx.operator is None:
             return None
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return ctx.val
             if result is True:
-- 
2.43.0


From c05cdcc56c8aacf2fdd08c024ffc4a08f9ac48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:01 +0000
Subject: [PATCH 12/62] fix: oneisvalid accepted everything when given a
 callable

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index fc55979..8fbf1cf 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -34,9 +34,9 @@ class OneIsValidModifier(Modifier):
             else:
                 params_len = len(signature(item).parameters)
                 if params_len == 1:
-                    result = callable(ctx.val)
+                    result = item(ctx.val)
                 elif params_len == 2:
-                    result = callable(ctx.val, ctx)
+                    result = item(ctx.val, ctx)
                 if result is None:
                     return
                 if result is True:
-- 
2.43.0


From d08df7d47fca0352042eb0ac50d90d3b46c1b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:42 +0000
Subject: [PATCH 13/62] fix: replacing items of a linked list left stale keys
 and lost kept items

---
 jsonclasses/jsonclassify.py | 7 ++++---
 jsonclasses/olist.py        | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 9ced806..5d8750c 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -865,7 +865,8 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             if len(rlist) != len(olist):
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
-                rlist.insert(idx, val._id)
+                if rlist.count(val._id) < olist.count(val):
+                    rlist.insert(idx, val._id)
     # replace silently, this change is already being notified
     if isinstance(val, dict):
         list.__setitem__(olist, idx, to_owned_dict(
@@ -888,7 +889,7 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             self._is_modified = True
         flist = getattr(self, fname)
         if isinstance(flist, list):
-            if len(flist) != len(olist):
+            if len(flist) != len(olist) or val not in olist:
                 # TODO: reorder flist here
                 # TODO: replace the underneath implementation
                 match = next((v for v in flist if v._id == val), "PLACEHOLDER")
@@ -906,7 +907,7 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
+            if len(rlist) != len(olist) or val not in olist:
                 if val is not None and val._id in rlist:
                     rlist.remove(val._id)
     # record modified
diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 587bea9..2a734bb 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -148,7 +148,8 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
             val = self[idx] if 0 <= idx < len_self else None
             self.owner.__olist_will_change__(self)
             super().__setitem__(*args)
-            self.owner.__olist_del__(self, val)
+            if val is not args[1]:
+                self.owner.__olist_del__(self, val)
             self.owner.__olist_add__(self, idx, args[1])
         elif isinstance(args[0], slice):
             slc: slice = args[0]
@@ -158,7 +159,8 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
             self.owner.__olist_will_change__(self)
             super().__setitem__(slc, values)
             for item in remove_list:
-                self.owner.__olist_del__(self, item)
+                if not any(item is v for v in values):
+                    self.owner.__olist_del__(self, item)
             for item in values:
                 self.owner.__olist_add__(self, start, item)
                 start += step
-- 
2.43.0


From cc75ce8b97f559531033591979b07a13f8806141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:15 +0000
Subject: [PATCH 14/62] fix: assigning keys of a linked list stored an
 untracked list

---
 jsonclasses/jsonclassify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 5d8750c..53acaba 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -702,6 +702,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     if existitem is not None:
                         new_list.append(existitem)
                 setattr(self, field_name, new_list)
+            value = to_owned_list(self, value or [], name)
         if not self.is_new:
             setattr(self, '_is_modified', True)
             self._modified_fields.add(field_name)
-- 
2.43.0


From a61754b1d55a08471ca8f7c99455a35152b92526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:21 +0000
Subject: [PATCH 15/62] fix: an unlinked object reported its changed reference
 but not that it is modified

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 53acaba..eb6701f 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -947,7 +947,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
                 if of.fdef.fstore == FStore.LOCAL_KEY:
                     tsfm = item.__class__.cdef.jconf.ref_name_strategy
                     item.__original_setattr__(tsfm(other_field), None)
-                    item._modified_fields.add(other_field.name)
+                    if not item.is_new:
+                        item._is_modified = True
+                        item._modified_fields.add(other_field.name)
                 item._add_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
-- 
2.43.0


From ac7c104fd51754af57b1bdaf5d4430e656fe6ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:29 +0000
Subject: [PATCH 16/62] fix: saving an object skipped every other object it was
 unlinked from

---
 jsonclasses/jsonclassify.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index eb6701f..e32cc44 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -349,11 +349,16 @@ def save(self: JObject,
         self.validate(all_fields=validate_all_fields)
     self._set_on_save()
     self._database_write()
-    for _, lst in self.unlinked_objects.items():
-        for item in lst:
-            lst.remove(item)
-            item.save(validate_all_fields=validate_all_fields,
-                      skip_validation=skip_validation)
+    for lst in list(self.unlinked_objects.values()):
+        while len(lst) > 0:
+            item = lst.pop(0)
+            try:
+                item.save(validate_all_fields=validate_all_fields,
+                          skip_validation=skip_validation)
+            except BaseException:
+                # it is still to be saved
+                lst.insert(0, item)
+                raise
     return self
 
 
-- 
2.43.0


From b0fde4eca9d150171d3912ee4ad80e7ec7e4f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 17/62] fix: keys without a fetched object confused the keys of
 a linked list

---
 jsonclasses/jsonclassify.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e32cc44..2c50acb 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -868,11 +868,10 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
+            if rlist.count(val._id) < olist.count(val):
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
-                if rlist.count(val._id) < olist.count(val):
-                    rlist.insert(idx, val._id)
+                rlist.insert(idx, val._id)
     # replace silently, this change is already being notified
     if isinstance(val, dict):
         list.__setitem__(olist, idx, to_owned_dict(
@@ -895,12 +894,11 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             self._is_modified = True
         flist = getattr(self, fname)
         if isinstance(flist, list):
-            if len(flist) != len(olist) or val not in olist:
-                # TODO: reorder flist here
-                # TODO: replace the underneath implementation
-                match = next((v for v in flist if v._id == val), "PLACEHOLDER")
-                if match != "PLACEHOLDER":
-                    flist.remove(match)
+            # TODO: reorder flist here
+            # TODO: replace the underneath implementation
+            matches = [v for v in flist if v._id == val]
+            if len(matches) > olist.count(val):
+                flist.remove(matches[0])
         return
     try:
         field = cdef.field_named(olist.keypath)
@@ -913,9 +911,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist) or val not in olist:
-                if val is not None and val._id in rlist:
-                    rlist.remove(val._id)
+            if val is not None and rlist.count(val._id) > olist.count(val):
+                rlist.remove(val._id)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 97d9bdea7507afd648e8b1025428c543827ecca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:45 +0000
Subject: [PATCH 18/62] fix: linking from the other side dropped the keys of a
 list that was not fetched

---
 jsonclasses/jsonclassify.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 2c50acb..41f619f 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -981,6 +981,13 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
+            if other_field.fdef.fstore == FStore.LOCAL_KEY:
+                if getattr(item, other_field.name) is None and \
+                        getattr(item, other_field.ref_name):
+                    # objects are not fetched, keep the existing keys
+                    item.__original_setattr__(
+                        other_field.name,
+                        to_owned_list(item, [], other_field.name))
             if not isinstance(getattr(item, other_field.name), list):
                 setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
-- 
2.43.0


From ad2c2b2e07bfedbff2ce8ff2d938b1f5bccccc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:18 +0000
Subject: [PATCH 19/62] fix: the item types of a field were visible to other
 threads before they were resolved

---
 jsonclasses/fdef.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index a99c6a1..21351aa 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -344,14 +344,16 @@ class FDef:
             return cast(Types, None)
         if self._resolved_item_types is not None:
             return self._resolved_item_types
-        self._resolved_item_types = rtypes(self.raw_item_types)
-        self._resolved_item_types.fdef._cdef = self.cdef
-        self._resolved_item_types = rnamedtypes(
-            self._resolved_item_types,
+        item_types = rtypes(self.raw_item_types)
+        item_types.fdef._cdef = self.cdef
+        item_types = rnamedtypes(
+            item_types,
             self.cdef.jconf.cgraph,
             self.cdef.name)
-        if self._resolved_item_types.fdef.item_nullability == Nullability.UNDEFINED:
-            self._resolved_item_types = self._resolved_item_types.required
+        if item_types.fdef.item_nullability == Nullability.UNDEFINED:
+            item_types = item_types.required
+        # publish only when it's fully resolved
+        self._resolved_item_types = item_types
         return self._resolved_item_types
 
     @property
-- 
2.43.0


From 872efc632f5b3c7b3a9926a523131c04c547cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:10 +0000
Subject: [PATCH 20/62] fix: threads using a class for the first time at once
 broke its definition

---
 jsonclasses/cdef.py   | 14 ++++++++++----
 jsonclasses/rtypes.py |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index d1c70d4..5df606c 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -8,6 +8,7 @@ from __future__ import annotations
 from jsonclasses.jobject import JObject
 from typing import Optional, Any, final, cast, TYPE_CHECKING
 from dataclasses import fields as dataclass_fields
+from threading import RLock
 from .jfield import JField
 from .fdef import FStore, DeleteRule, FType
 from .rtypes import rtypes, rnamedtypes
@@ -35,6 +36,7 @@ class CDef:
         from .types import Types
         self._ref_names_resolved = False
         self._ref_types_resolved = False
+        self._resolve_lock = RLock()
         self._cls = cls
         jconf._cls = cls
         self._name: str = cls.__name__
@@ -295,13 +297,17 @@ class CDef:
 
     def _resolve_ref_types_if_needed(self: CDef) -> None:
         if self._ref_types_resolved is False:
-            self._resolve_types()
-            self._ref_types_resolved = True
+            with self._resolve_lock:
+                if self._ref_types_resolved is False:
+                    self._resolve_types()
+                    self._ref_types_resolved = True
 
     def _resolve_ref_names_if_needed(self: CDef) -> None:
         if self._ref_names_resolved is False:
-            self._resolve_ref_names()
-            self._ref_names_resolved = True
+            with self._resolve_lock:
+                if self._ref_names_resolved is False:
+                    self._resolve_ref_names()
+                    self._ref_names_resolved = True
 
     def _resolve_types(self: CDef) -> None:
         for jfield in self._tuple_fields:
diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index d23e43e..1459ba0 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -272,9 +272,9 @@ def rnamedtypes(types: Types, cgraph: CGraph, cname: str) -> Types:
     Returns:
         Types: a types which is fully resolved.
     """
-    if not types.fdef._unresolved_name:
-        return types
     name = types.fdef._unresolved_name
+    if not name:
+        return types
     if cgraph.has(name):
         cdef = cgraph.fetch(name)
         types = types.objof(cdef.cls)
-- 
2.43.0


From 40010520e382b28e6d0bf42ab18fedc028197609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:47 +0000
Subject: [PATCH 21/62] fix: defining an enum twice raised AttributeError
 instead of the name conflict

---
 jsonclasses/cgraph.py | 2 +-
 jsonclasses/excs.py   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index a261cab..008aa8f 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -144,7 +144,7 @@ class CGraph:
         exist_def = self._enum_map.get(enum_class.__name__)
         if exist_def:
             raise JSONClassTypedDictRedefinitionException(enum_class,
-                                                          exist_def.cls)
+                                                          exist_def, self)
         self._enum_map[enum_class.__name__] = enum_class
 
     def fetch_enum(self: CGraph, ec_or_name: type[Enum] | str) -> type[Enum]:
diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index b6f4415..45d4f26 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from typing import Any, TYPE_CHECKING
 from inspect import getmodule, getsourcelines
 if TYPE_CHECKING:
+    from .cgraph import CGraph
     from .jobject import JObject
 
 
@@ -74,13 +75,15 @@ class JSONClassTypedDictRedefinitionException(Exception):
     exists before in the same graph.
     """
 
-    def __init__(self, new_class: type, exist_class: type[JObject]) -> None:
+    def __init__(self, new_class: type, exist_class: type,
+                 graph: CGraph) -> None:
         """Create an exception that notifies the user that a typed dict class
         with duplicated name is defined twice.
 
         Args:
             new_class (type): The new class which is putting on the graph.
             exist_class(type): The existing class which the user defined.
+            graph (CGraph): The graph on which the class is defined.
         """
         name = new_class.__name__
         original_module = getmodule(exist_class)
@@ -91,7 +94,6 @@ class JSONClassTypedDictRedefinitionException(Exception):
         assert new_module is not None
         new_file = new_module.__file__
         new_line = getsourcelines(new_class)[1]
-        graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass typed dict name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
                    f'`{original_file}:{original_line}`, '
-- 
2.43.0


From 3ea13e2db3c406f2d93593604dd43feb213c7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:47 +0000
Subject: [PATCH 22/62] fix: a class name conflict raised OSError where the
 source code is not available

---
 jsonclasses/excs.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index 45d4f26..4b50c26 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -7,6 +7,17 @@ if TYPE_CHECKING:
     from .jobject import JObject
 
 
+def _source_location(class_: type) -> tuple[str, int | str]:
+    """Find the file and the line at which a class is defined. Classes which
+    are defined interactively or without their source code have none.
+    """
+    file = getattr(getmodule(class_), '__file__', None) or '<unknown>'
+    try:
+        return (file, getsourcelines(class_)[1])
+    except (OSError, TypeError):
+        return (file, '?')
+
+
 class UnresolvedTypeNameException(Exception):
     """Unresolved type name in graph.
     """
@@ -54,14 +65,8 @@ class JSONClassRedefinitionException(Exception):
             exist_class(type): The existing class which the user defined.
         """
         name = new_class.__name__
-        original_module = getmodule(exist_class)
-        assert original_module is not None
-        original_file = original_module.__file__
-        original_line = getsourcelines(exist_class)[1]
-        new_module = getmodule(new_class)
-        assert new_module is not None
-        new_file = new_module.__file__
-        new_line = getsourcelines(new_class)[1]
+        original_file, original_line = _source_location(exist_class)
+        new_file, new_line = _source_location(new_class)
         graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
@@ -86,14 +91,8 @@ class JSONClassTypedDictRedefinitionException(Exception):
             graph (CGraph): The graph on which the class is defined.
         """
         name = new_class.__name__
-        original_module = getmodule(exist_class)
-        assert original_module is not None
-        original_file = original_module.__file__
-        original_line = getsourcelines(exist_class)[1]
-        new_module = getmodule(new_class)
-        assert new_module is not None
-        new_file = new_module.__file__
-        new_line = getsourcelines(new_class)[1]
+        original_file, original_line = _source_location(exist_class)
+        new_file, new_line = _source_location(new_class)
         message = (f'jsonclass typed dict name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
                    f'`{original_file}:{original_line}`, '
-- 
2.43.0


From 6d9b82e622a54dbe6b6045e8d5bf867ff568e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:14 +0000
Subject: [PATCH 23/62] fix: threads defining classes at once lost definitions
 or saw half made graphs

---
 jsonclasses/cgraph.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index 008aa8f..acde7be 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 from typing import final, TYPE_CHECKING
 from enum import Enum
+from threading import RLock
 from .jconf import JConf
 from .keypath import camelize_key, reference_key, underscore_key
 from .excs import (JSONClassRedefinitionException,
@@ -26,13 +27,17 @@ class CGraph:
     _initialized_map: dict[str, bool] = {}
     """The map on which graphs' initialization status are recorded."""
 
+    _lock: RLock = RLock()
+    """Guards the creation of graphs and the registration of names."""
+
     def __new__(cls: type[CGraph], name: str) -> CGraph:
         """The `CGraph` class returns a shared graph object by it's
         name.
         """
-        if not cls._graph_map.get(name):
-            cls._graph_map[name] = super(CGraph, cls).__new__(cls)
-        return cls._graph_map.get(name)
+        with cls._lock:
+            if not cls._graph_map.get(name):
+                cls._graph_map[name] = super(CGraph, cls).__new__(cls)
+            return cls._graph_map.get(name)
 
     def __init__(self: CGraph, name: str) -> None:
         """Find a class graph by it's name. A new one is created if it's not
@@ -43,6 +48,13 @@ class CGraph:
         """
         if self.__class__._initialized_map.get(name):
             return
+        with self.__class__._lock:
+            if not self.__class__._initialized_map.get(name):
+                self._initialize(name)
+                self.__class__._initialized_map[name] = True
+        return None
+
+    def _initialize(self: CGraph, name: str) -> None:
         self._name: str = name
         self._map: dict[str, CDef] = {}
         self._enum_map: dict[str, type] = {}
@@ -62,8 +74,6 @@ class CGraph:
                                      can_update=[],
                                      can_delete=[],
                                      can_read=[])
-        self.__class__._initialized_map[name] = True
-        return None
 
     def __repr__(self) -> str:
         return f'[{self._name}]'
@@ -88,11 +98,13 @@ class CGraph:
             JSONClassRedefinitionException: This exception is raised if a \
                 new class with existing name is defined.
         """
-        exist_definition = self._map.get(cdef.name)
+        with self.__class__._lock:
+            exist_definition = self._map.get(cdef.name)
+            if not exist_definition:
+                self._map[cdef.name] = cdef
         if exist_definition:
             raise JSONClassRedefinitionException(cdef.cls,
                                                  exist_definition.cls)
-        self._map[cdef.name] = cdef
 
     def fetch(self: CGraph, name_or_class: str | type) -> CDef:
         """Fetch a class by it's name from this class graph.
@@ -141,11 +153,13 @@ class CGraph:
             JSONClassRedefinitionException: This exception is raised if a \
                 new enum class with existing name is defined.
         """
-        exist_def = self._enum_map.get(enum_class.__name__)
+        with self.__class__._lock:
+            exist_def = self._enum_map.get(enum_class.__name__)
+            if not exist_def:
+                self._enum_map[enum_class.__name__] = enum_class
         if exist_def:
             raise JSONClassTypedDictRedefinitionException(enum_class,
                                                           exist_def, self)
-        self._enum_map[enum_class.__name__] = enum_class
 
     def fetch_enum(self: CGraph, ec_or_name: type[Enum] | str) -> type[Enum]:
         """Fetch a enum class by it's name from this class graph.
-- 
2.43.0


From 8cab7422c68c9b5c58497cda2a0a74ddfa47cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:06 +0000
Subject: [PATCH 24/62] fix: on-save processing and validation of a linked
 object acted on the object or list it was reached from

---
 jsonclasses/ctx.py                           | 10 ++++++++++
 jsonclasses/modifiers/instanceof_modifier.py |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/jsonclasses/ctx.py b/jsonclasses/ctx.py
index f418242..9ee449a 100644
--- a/jsonclasses/ctx.py
+++ b/jsonclasses/ctx.py
@@ -259,6 +259,16 @@ class Ctx(NamedTuple):
                    operator=self.operator, mgraph=self.mgraph,
                    idchain=self.idchain, passin=self.passin)
 
+    def entero(self: Ctx) -> Ctx:
+        """Enter the object which is the current value. Its fields belong to
+        it, and not to the list, the dict or the object it was reached from.
+        """
+        if self.parent is self.val:
+            return self
+        return self._replace(owner=self.val, parent=self.val,
+                             keypatho=[], fkeypatho=[],
+                             keypathp=[], fkeypathp=[])
+
     def default(self: Ctx, owner: JObject, key: str | int, fdef: FDef) -> Ctx:
         ekey = self.owner.__class__.cdef.jconf.output_key_strategy(key)
         return Ctx(root=self.root, owner=owner, parent=owner,
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index b5526ba..652cce2 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -39,6 +39,7 @@ class InstanceOfModifier(Modifier):
             all_fields = cls.cdef.jconf.validate_all_fields
         if not isinstance(ctx.val, cls):
             ctx.raise_vexc(f'value is not instance of {cls.__name__}')
+        ctx = ctx.entero()
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
         if only_validate_modified:
@@ -245,6 +246,7 @@ class InstanceOfModifier(Modifier):
         if exist_item is not None:  # Don't do twice for an object
             return value
         ctx.mgraph.put(value)
+        ctx = ctx.entero()
         should_update = False
         if value.is_modified or value.is_new:
             should_update = True
-- 
2.43.0


From eda3930e0b8b2fcdee10b3bea480520d742353fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:37 +0000
Subject: [PATCH 25/62] fix: tsupdated gave new objects a local time without a
 time zone

---
 jsonclasses/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index c80d2ac..96447ef 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1305,7 +1305,7 @@ class Types:
         """This modifier adds a default current time and a set on save.
         """
         return Types(self,
-                     DefaultModifier(datetime.now),
+                     DefaultModifier(lambda: datetime.now(timezone.utc)),
                      PreserializeModifier(),
                      SetOnSaveModifier(lambda: datetime.now(timezone.utc)))
 
-- 
2.43.0


From 13427e091771199d29bad8b7df8e14bfd5c9daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:44 +0000
Subject: [PATCH 26/62] fix: times with a zone offset or without microseconds
 were read and written as another time

---
 jsonclasses/modifiers/datetime_modifier.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 6752e62..91e6dec 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -22,6 +22,8 @@ class DatetimeModifier(TypeModifier):
         elif isinstance(ctx.val, str):
             try:
                 retval = datetime.fromisoformat(ctx.val.replace('Z', ''))
+                if retval.tzinfo is not None:
+                    return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
             except ValueError:
                 ctx.raise_vexc('wrong datetime format')
@@ -34,4 +36,11 @@ class DatetimeModifier(TypeModifier):
             return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
-        return None if ctx.val is None else ctx.val.isoformat()[:23] + 'Z'
+        if ctx.val is None:
+            return None
+        if not isinstance(ctx.val, datetime):
+            return ctx.val.isoformat()[:23] + 'Z'
+        val = ctx.val
+        if val.tzinfo is not None:
+            val = val.astimezone(timezone.utc).replace(tzinfo=None)
+        return val.isoformat(timespec='milliseconds') + 'Z'
-- 
2.43.0


From 13905217d8c9e1a728563c1536a3365bb4220efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:44 +0000
Subject: [PATCH 27/62] fix: umininterval raised TypeError when there is no old
 or new value

---
 jsonclasses/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index 96447ef..38ed2c9 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1312,7 +1312,9 @@ class Types:
     def umininterval(self: Types, interval: timedelta) -> Types:
         """This modifier compares old and new value against the time interval.
         """
-        def compare_callable(old: datetime, new: datetime):
+        def compare_callable(old: datetime | None, new: datetime | None):
+            if old is None or new is None:
+                return None
             if new >= old + interval:
                 return None
             return 'time interval too short'
-- 
2.43.0


From 3cc9d786fe292c42d9f3e58cacd25546eb645ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:15 +0000
Subject: [PATCH 28/62] fix: threads loading the configuration at once got
 different configuration objects

---
 jsonclasses/singleton.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/singleton.py b/jsonclasses/singleton.py
index 03088bf..274a494 100644
--- a/jsonclasses/singleton.py
+++ b/jsonclasses/singleton.py
@@ -1,7 +1,13 @@
+from threading import RLock
+
+
 def singleton(cls):
     instances = {}
+    lock = RLock()
     def getinstance():
         if cls not in instances:
-            instances[cls] = cls()
+            with lock:
+                if cls not in instances:
+                    instances[cls] = cls()
         return instances[cls]
     return getinstance
-- 
2.43.0


From 732d12b5fee827638d83bf1e3d5ae0eb3472579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:15 +0000
Subject: [PATCH 29/62] fix: config.json was read in the encoding of the host's
 locale

---
 jsonclasses/uconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/uconf.py b/jsonclasses/uconf.py
index af545b2..d4a477f 100644
--- a/jsonclasses/uconf.py
+++ b/jsonclasses/uconf.py
@@ -65,7 +65,7 @@ class UserConfRoot(UserConf):
     def _load(self) -> None:
         conf_path = Path(getcwd()) / 'config.json'
         if conf_path.is_file():
-            with open(conf_path) as conf_file:
+            with open(conf_path, encoding='utf-8') as conf_file:
                 self._conf = load(conf_file)
                 self._replace_envs()
                 self._normalize_keys()
-- 
2.43.0


From c818f17e9c93e2793b25ff744e91eb01dde0a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 30/62] fix: threads uploading for the first time at once
 raised FileExistsError

---
 jsonclasses/uploaders.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsonclasses/uploaders.py b/jsonclasses/uploaders.py
index 95ff485..68a6d73 100644
--- a/jsonclasses/uploaders.py
+++ b/jsonclasses/uploaders.py
@@ -60,8 +60,7 @@ class LocalFSClient:
         self.dir = dir
         self.url = url
         dest = Path(getcwd()) / 'public' / self.dir
-        if not dest.is_dir():
-            dest.mkdir(parents=True)
+        dest.mkdir(parents=True, exist_ok=True)
         self.dest = dest
 
     def upload(self, value: Any) -> str:
-- 
2.43.0


From c66d8a39df53c471f11507cc06bbbebb0fb630da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 31/62] fix: a failed upload left a partial file in the public
 directory

---
 jsonclasses/uploaders.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/uploaders.py b/jsonclasses/uploaders.py
index 68a6d73..ca39088 100644
--- a/jsonclasses/uploaders.py
+++ b/jsonclasses/uploaders.py
@@ -65,12 +65,16 @@ class LocalFSClient:
 
     def upload(self, value: Any) -> str:
         unique_filename = f'{uuid4().hex}{Path(value.filename).suffix.lower()}'
-        if value.__class__.__name__ == 'UploadFile':
-            file_location = str(self.dest / unique_filename)
-            with open(file_location, "wb+") as file_object:
-                file_object.write(value.file.read())
-        else:
-            value.save(str(self.dest / unique_filename))
+        file_location = str(self.dest / unique_filename)
+        try:
+            if value.__class__.__name__ == 'UploadFile':
+                with open(file_location, "wb+") as file_object:
+                    file_object.write(value.file.read())
+            else:
+                value.save(file_location)
+        except BaseException:
+            Path(file_location).unlink(missing_ok=True)
+            raise
         return self.url + '/public/' + self.dir + '/' + unique_filename
 
 
-- 
2.43.0


From aef17d892cca4b8153499469c2e10e02c33e27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:08 +0000
Subject: [PATCH 32/62] fix: the alioss uploader dropped the file without an
 error

---
 jsonclasses/uploaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/uploaders.py b/jsonclasses/uploaders.py
index ca39088..155b1f1 100644
--- a/jsonclasses/uploaders.py
+++ b/jsonclasses/uploaders.py
@@ -51,7 +51,7 @@ class S3Uploader(Uploader):
 class AliOSSUploader(Uploader):
 
     def upload(self, value: Any) -> str:
-        pass
+        raise NotImplementedError('alioss uploader is not implemented')
 
 
 class LocalFSClient:
-- 
2.43.0


From 4fdedf3a1975f6681f714b331eeb96598741087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 33/62] fix: an installed package was not added to
 requirements.txt when a similar name or no file was there

---
 jsonclasses/pkgutils.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/pkgutils.py b/jsonclasses/pkgutils.py
index 9bc852d..b1cbffb 100644
--- a/jsonclasses/pkgutils.py
+++ b/jsonclasses/pkgutils.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 from importlib import import_module
+from os.path import exists
+from re import match, sub
 from subprocess import check_call
 from sys import executable
 
@@ -11,19 +13,28 @@ def check_package(module_name: str, info: tuple[str, str]) -> None:
         raise ModuleNotFoundError(f'module {module_name} is not found. please install {info[0]}{info[1]}')
 
 
+def _package_name(requirement: str) -> str | None:
+    result = match(r'\s*([A-Za-z0-9][A-Za-z0-9._-]*)', requirement)
+    return sub(r'[-_.]+', '-', result[1]).lower() if result else None
+
+
 def install_package(info: tuple[str, str]) -> None:
     param = f'{info[0]}{info[1]}'
     check_call([executable, "-m", "pip", "install", param])
-    with open('requirements.txt', 'r') as file:
-        content = file.read()
-        lines = content.split('\n')
-        has = False
-        for line in lines:
-            if info[0] in line:
-                has = True
-        if not has:
-            with open('requirements.txt', 'a') as afile:
-                afile.write(param + '\n')
+    content = ''
+    if exists('requirements.txt'):
+        with open('requirements.txt', 'r') as file:
+            content = file.read()
+    lines = content.split('\n')
+    has = False
+    for line in lines:
+        if _package_name(line) == _package_name(info[0]):
+            has = True
+    if not has:
+        if lines[-1] != '':
+            param = '\n' + param
+        with open('requirements.txt', 'a') as afile:
+            afile.write(param + '\n')
 
 
 def check_and_install_packages(packages: dict[str, (str, str)] | None) -> None:
-- 
2.43.0


From f4f27461087bf763e02de02f61ac23b090df1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 34/62] fix: package checks installed twice from two threads,
 installed on an interrupt and failed without packages

---
 jsonclasses/pkgutils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/pkgutils.py b/jsonclasses/pkgutils.py
index b1cbffb..2e0423b 100644
--- a/jsonclasses/pkgutils.py
+++ b/jsonclasses/pkgutils.py
@@ -4,12 +4,16 @@ from os.path import exists
 from re import match, sub
 from subprocess import check_call
 from sys import executable
+from threading import RLock
+
+
+_lock = RLock()
 
 
 def check_package(module_name: str, info: tuple[str, str]) -> None:
     try:
         import_module(module_name)
-    except:
+    except Exception:
         raise ModuleNotFoundError(f'module {module_name} is not found. please install {info[0]}{info[1]}')
 
 
@@ -38,8 +42,9 @@ def install_package(info: tuple[str, str]) -> None:
 
 
 def check_and_install_packages(packages: dict[str, (str, str)] | None) -> None:
-    for module_name, info in packages.items():
-        try:
-            check_package(module_name, info)
-        except:
-            install_package(info)
+    for module_name, info in (packages or {}).items():
+        with _lock:
+            try:
+                check_package(module_name, info)
+            except ModuleNotFoundError:
+                install_package(info)
-- 
2.43.0


From e61000a57a3dc0f72a38422bed863dc8eaee434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:46 +0000
Subject: [PATCH 35/62] fix: random digits and alnums never repeated a
 character and failed for longer lengths

---
 jsonclasses/modifiers/random_alnumpuncs_modifier.py | 4 ++--
 jsonclasses/modifiers/random_alnums_modifier.py     | 4 ++--
 jsonclasses/modifiers/random_digits_modifier.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/modifiers/random_alnumpuncs_modifier.py b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
index 068d9eb..0add636 100644
--- a/jsonclasses/modifiers/random_alnumpuncs_modifier.py
+++ b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnumpuncs modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,4 +20,4 @@ class RandomAlnumpuncsModifier(Modifier):
         punctuation = r"""!"#$%&'()*+,-./:;<=>?@[\]^_`{|}~"""
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(punctuation+ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(punctuation+ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_alnums_modifier.py b/jsonclasses/modifiers/random_alnums_modifier.py
index 3606493..7827130 100644
--- a/jsonclasses/modifiers/random_alnums_modifier.py
+++ b/jsonclasses/modifiers/random_alnums_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnums modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -19,4 +19,4 @@ class RandomAlnumsModifier(Modifier):
         ascii_uppercase = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_digits_modifier.py b/jsonclasses/modifiers/random_digits_modifier.py
index e3f2c90..1141e89 100644
--- a/jsonclasses/modifiers/random_digits_modifier.py
+++ b/jsonclasses/modifiers/random_digits_modifier.py
@@ -1,7 +1,7 @@
 """module for random digits modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -16,4 +16,4 @@ class RandomDigitsModifier(Modifier):
 
     def transform(self, ctx: Ctx) -> Any:
         digits = '0123456789'
-        return ''.join(sample(digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(digits, k=self.resolve_param(self.length, ctx)))
-- 
2.43.0


From d2aa4a0ea1cc344b7b89f6e1cab25ab1ef128a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:30 +0000
Subject: [PATCH 36/62] fix: fetching marked objects modified, and fetching a
 field again lost its links

---
 jsonclasses/jsonclassify.py | 59 ++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 41f619f..4cbfa49 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -1,6 +1,7 @@
 """This module defines the `jsonclassify` function."""
 from __future__ import annotations
-from typing import Any, Callable, Optional, Union, cast
+from typing import Any, Callable, Iterator, Optional, Union, cast
+from contextlib import contextmanager
 from inspect import signature, getmro
 from .jobject import JObject
 from .ctx import Ctx, CtxCfg
@@ -380,15 +381,29 @@ def restore(self: JObject) -> JObject:
     return self
 
 
+@contextmanager
+def _keeping_status(objects: list[JObject]) -> Iterator[None]:
+    """Fetching values and objects doesn't modify any of the objects."""
+    saved = [(o, o._is_modified, set(o._modified_fields),
+              dict(o._previous_values),
+              {k: list(v) for k, v in o._unlinked_objects.items()})
+             for o in objects]
+    try:
+        yield
+    finally:
+        for o, is_modified, modified_fields, previous, unlinked in saved:
+            o._is_modified = is_modified
+            o._modified_fields = modified_fields
+            o._previous_values = previous
+            o._unlinked_objects = unlinked
+
+
 def complete(self: JObject) -> JObject:
     """Fetch missing field values from the underlying ORM.
     """
     if self.is_partial:
-        saved_modified_fields = list(self._modified_fields)
-        saved_is_modified = self._is_modified
-        self._orm_complete()
-        self._is_modified = saved_is_modified
-        self._modified_fields = saved_modified_fields
+        with _keeping_status([self]):
+            self._orm_complete()
     return self
 
 
@@ -400,44 +415,53 @@ def include(self: JObject, field_name: str) -> JObject:
         cls = cast(ORMObject, field.fdef.inst_cls)
     elif field.fdef.ftype == FType.LIST:
         cls = field.fdef.item_types.fdef.inst_cls
-    modified_fields = self.modified_fields
-    is_modified = self.is_modified
     if field.fdef.fstore == FStore.LOCAL_KEY:
         if field.fdef.ftype == FType.INSTANCE:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             ridname = rkes(field)
             rid = getattr(self, ridname)
-            result = cls.id(rid).exec()
-            setattr(self, field.name, result)
+            result = cls.id(rid).exec() if rid is not None else None
         elif field.fdef.ftype == FType.LIST:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             ridname = rkes(field)
             rids = getattr(self, ridname)
-            result = cls.ids(rids).exec()
-            setattr(self, field.name, result)
+            result = cls.ids(rids).exec() if rids else []
     elif field.fdef.fstore == FStore.FOREIGN_KEY:
         if field.fdef.use_join_table:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.find(**{idref: [self._id]}).exec()
-            setattr(self, field.name, result)
         elif field.fdef.ftype == FType.INSTANCE:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.one(**{idref: self._id}).exec()
-            setattr(self, field.name, result)
         elif field.fdef.ftype == FType.LIST:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.find(**{idref: [self._id]}).exec()
-            setattr(self, field.name, result)
-    setattr(self, '_modified_fields', set(modified_fields))
-    setattr(self, '_is_modified', is_modified)
+    fetched = result if isinstance(result, list) else [result]
+    fetched = [self._known_object(item) for item in fetched]
+    touched = {id(o): o for o in [self, *self._graph, *fetched]
+               if o is not None}
+    with _keeping_status(list(touched.values())):
+        setattr(self, field.name,
+                fetched if isinstance(result, list) else fetched[0])
     return self
 
+
+def _known_object(self: JObject, item: JObject | None) -> JObject | None:
+    """The object on the graph which represents the same item, if any."""
+    if item is None or item._id is None:
+        return item
+    if type(item) is type(self) and item._id == self._id:
+        return self
+    known = self._graph.get(item)
+    return known if type(known) is type(item) else item
+
+
 def _orm_complete(self: JObject) -> JObject:
     """ORM method override. Fetch missing field values and assign to this object.
     """
@@ -1051,6 +1075,7 @@ def jsonclassify(class_: type) -> type[JObject]:
     class_._set = _set
     class_._keypath_set = _keypath_set
     class_._set_to_container = _set_to_container
+    class_._known_object = _known_object
     class_._orm_complete = _orm_complete
     class_._data_dict = _data_dict
     class_._mark_new = _mark_new
-- 
2.43.0


From f735ae375ef02380a124677315addff8b5de164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:11 +0000
Subject: [PATCH 37/62] fix: set wrote into readonly and writeonce fields
 through key paths

---
 jsonclasses/jsonclassify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 4cbfa49..ccbc9c1 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -5,7 +5,7 @@ from contextlib import contextmanager
 from inspect import signature, getmro
 from .jobject import JObject
 from .ctx import Ctx, CtxCfg
-from .fdef import FDef, FStore, FType
+from .fdef import FDef, FStore, FType, WriteRule
 from .types import Types
 from .modifiers.instanceof_modifier import InstanceOfModifier
 from .jfield import JField
@@ -81,6 +81,10 @@ def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
         items = keypath_split(key)
         dest = getattr(self, items[0])
         fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        if fdef.write_rule == WriteRule.NO_WRITE:
+            continue
+        if fdef.write_rule == WriteRule.WRITE_ONCE and dest is not None:
+            continue
         used_items = [items[0]]
         self._set_to_container(dest, items[1:], value, fdef, used_items)
 
-- 
2.43.0


From 1b4b40425f7ab750a58ad5a234f4784d49e21e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:11 +0000
Subject: [PATCH 38/62] fix: input wrote readonly and writeonce links by their
 keys, and marks failed for nested objects

The reference key of a readonly or writeonce link was accepted. A writeonce
field with a default refused its first value in a nested object, and an object
given twice in one input lost its writeonce and writenonnull values.
---
 jsonclasses/modifiers/instanceof_modifier.py | 27 ++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 652cce2..5c0953d 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -91,9 +91,17 @@ class InstanceOfModifier(Modifier):
             field_value = ctx.val.get(field.name)
         return field_value
 
+    def _is_value_present(self, field: JField, dest: JObject) -> bool:
+        from ..types import Types
+        value = getattr(dest, field.name)
+        if value is None and field.fdef.fstore == FStore.LOCAL_KEY:
+            if field.fdef.ftype != FType.LIST:
+                tsfm = dest.__class__.cdef.jconf.ref_name_strategy
+                value = getattr(dest, tsfm(field))
+        return value is not None and not isinstance(value, Types)
+
     # pylint: disable=arguments-differ, too-many-locals, too-many-branches
     def transform(self, ctx: Ctx) -> Any:
-        from ..types import Types
         from ..jobject import JObject
         # handle non normal value
         if ctx.val is None:
@@ -109,6 +117,7 @@ class InstanceOfModifier(Modifier):
         else:
             pvalue = None
         soft_apply_mode = False
+        is_created = False
         if ctx.original is not None:
             dest = ctx.original
             if pvalue is not None:
@@ -120,9 +129,11 @@ class InstanceOfModifier(Modifier):
                 soft_apply_mode = True
             else:
                 dest = cls()
+                is_created = True
                 ctx.mgraph.putp(pvalue, dest)
         else:
             dest = cls()
+            is_created = True
             ctx.mgraph.put(dest)
 
         # strictness check
@@ -144,7 +155,14 @@ class InstanceOfModifier(Modifier):
                     if fdef.ftype == FType.LIST:
                         if fdef.collection_nullability == Nullability.NONNULL:
                             nonnull_ref_lists.append(field.name)
-                    if fdef.fstore == FStore.LOCAL_KEY:
+                    allow_write_key = True
+                    if fdef.write_rule == WriteRule.NO_WRITE:
+                        allow_write_key = False
+                    if fdef.write_rule == WriteRule.WRITE_ONCE:
+                        if not is_created:
+                            if self._is_value_present(field, dest):
+                                allow_write_key = False
+                    if fdef.fstore == FStore.LOCAL_KEY and allow_write_key:
                         tsfm = dest.__class__.cdef.jconf.ref_name_strategy
                         refname = tsfm(field)
                         if ctx.val.get(refname) is not None:
@@ -162,14 +180,13 @@ class InstanceOfModifier(Modifier):
             if field.fdef.write_rule == WriteRule.NO_WRITE:
                 allow_write_field = False
             if field.fdef.write_rule == WriteRule.WRITE_ONCE:
-                cfv = getattr(dest, field.name)
-                if (cfv is not None) and (not isinstance(cfv, Types)):
+                if not is_created and self._is_value_present(field, dest):
                     allow_write_field = False
             if field.fdef.write_rule == WriteRule.WRITE_NONNULL:
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks:
+                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
-- 
2.43.0


From 3356a12d164817a99a89c0001a6e4e37fe4f0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:15 +0000
Subject: [PATCH 39/62] fix: pick and omit always failed, and omit would have
 changed the class

---
 jsonclasses/jsonclassify.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index ccbc9c1..e60df36 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -174,8 +174,8 @@ def pick(self: JObject, picks: list[str]) -> None:
     Partial picks some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
-    self._partial_picks = picks
+    self._is_partial = True
+    self._partial_picks = list(picks)
 
 
 def omit(self: JObject, omits: list[str]) -> None:
@@ -183,11 +183,11 @@ def omit(self: JObject, omits: list[str]) -> None:
     Partial omits some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
+    self._is_partial = True
     if hasattr(self, '_partial_picks'):
-        picks = self._partial_picks
+        picks = list(self._partial_picks)
     else:
-        picks = self.cdef._field_names
+        picks = list(self.cdef._field_names)
     for o in omits:
         picks.remove(o)
     self._partial_picks = picks
-- 
2.43.0


From e8d34610c76877adebbd8b327e8d0b73721a2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:15 +0000
Subject: [PATCH 40/62] fix: output showed the keys of writeonly links, shared
 key lists and asked read checks about the wrong object

---
 jsonclasses/modifiers/instanceof_modifier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 5c0953d..1f05ed7 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -203,6 +203,7 @@ class InstanceOfModifier(Modifier):
         from ..jobject import JObject
         if ctx.val is None:
             return None
+        ctx = ctx.entero()
         val = cast(JObject, ctx.val)
         retval = {}
         clschain = ctx.idchain
@@ -225,6 +226,8 @@ class InstanceOfModifier(Modifier):
                         if len(ctx.keypathr) > 1:
                             key = ctx.keypathr[-2]
                             isrf = field.foreign_field.name == key
+            if fd.read_rule == ReadRule.NO_READ and not ignore_writeonly:
+                continue
             if fd.fstore == FStore.LOCAL_KEY:
                 if val.is_partial:
                     if field.name not in val._partial_picks:
@@ -232,14 +235,14 @@ class InstanceOfModifier(Modifier):
                 rk = val.__class__.cdef.jconf.ref_name_strategy(field)
                 jrk = val.__class__.cdef.jconf.output_key_strategy(rk)
                 valatk = getattr(val, rk)
+                if fd.ftype == FType.LIST and valatk is not None:
+                    valatk = list(valatk)
                 if output_null or (valatk is not None):
                     retval[jrk] = valatk
             if fd.fstore == FStore.LOCAL_KEY and (isrf or no_key_refs):
                 continue
             if fd.fstore == FStore.FOREIGN_KEY and (isrf or no_key_refs):
                 continue
-            if fd.read_rule == ReadRule.NO_READ and not ignore_writeonly:
-                continue
             if fd.fstore == FStore.TEMP:
                 continue
             if val.is_partial:
-- 
2.43.0


From a8c313429a8d21088cad7c992a0a62d6cc920dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:24 +0000
Subject: [PATCH 41/62] fix: identity checks took two objects without a key for
 the same object

---
 jsonclasses/modifiers/isobj_modifier.py  | 4 +++-
 jsonclasses/modifiers/isthis_modifier.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/isobj_modifier.py b/jsonclasses/modifiers/isobj_modifier.py
index f0d35f4..37541b0 100644
--- a/jsonclasses/modifiers/isobj_modifier.py
+++ b/jsonclasses/modifiers/isobj_modifier.py
@@ -36,6 +36,8 @@ class IsObjModifier(Modifier):
         else:
             that_cls = that.cls
             that_id = that.id
-        if that_cls == this_cls and that_id == this_id:
+        if this is that:
+            return
+        if this_id is not None and that_cls == this_cls and that_id == this_id:
             return
         ctx.raise_vexc('objects are not equal')
diff --git a/jsonclasses/modifiers/isthis_modifier.py b/jsonclasses/modifiers/isthis_modifier.py
index 22b42c6..14516a8 100644
--- a/jsonclasses/modifiers/isthis_modifier.py
+++ b/jsonclasses/modifiers/isthis_modifier.py
@@ -15,6 +15,6 @@ class IsThisModifier(Modifier):
         if ctx.val is ctx.owner:
             return None
         if ctx.val.__class__ == ctx.owner.__class__:
-            if ctx.val._id == ctx.owner._id:
+            if ctx.val._id is not None and ctx.val._id == ctx.owner._id:
                 return None
         ctx.raise_vexc('value is not this')
-- 
2.43.0


From 55f9c381916e1ef8b37e4559c4af2e42fff2cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:47 +0000
Subject: [PATCH 42/62] fix: validating a field for objects that holds
 something else raised AttributeError, or accepted an object met before

The class of the value is checked first, and not only for objects that were
not validated yet.
---
 jsonclasses/modifiers/instanceof_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 1f05ed7..6ef50cd 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -29,16 +29,16 @@ class InstanceOfModifier(Modifier):
         # only validate if there is a value
         if ctx.val is None:
             return
+        cls = cast(type, ctx.fdef.inst_cls)
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         # only validate an instance once in the circular referenced map
         if ctx.mgraph.has(ctx.val):
             return
         ctx.mgraph.put(ctx.val)
-        cls = cast(type, ctx.fdef.inst_cls)
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
-        if not isinstance(ctx.val, cls):
-            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         ctx = ctx.entero()
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
-- 
2.43.0


From 1e2e3b053676235f0f7fee445a027e70cc79c9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:23 +0000
Subject: [PATCH 43/62] fix: filter with types lets errors of its validators
 reach the caller

---
 jsonclasses/modifiers/filter_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/filter_modifier.py b/jsonclasses/modifiers/filter_modifier.py
index 4c746d5..a03e6cb 100644
--- a/jsonclasses/modifiers/filter_modifier.py
+++ b/jsonclasses/modifiers/filter_modifier.py
@@ -1,6 +1,7 @@
 """module for filter modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
+from ..excs import ValidationException
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -24,7 +25,7 @@ class FilterModifier(Modifier):
                 try:
                     self.callback.modifier.validate(ctx.nval(tsfmd))
                     result.append(v)
-                except:
+                except ValidationException:
                     continue
             return result
         else:
-- 
2.43.0


From 90a4f1e2e8b80f88e52424dbef3441f1baac0a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:23 +0000
Subject: [PATCH 44/62] fix: interrupts during the transform of a union reach
 the caller

---
 jsonclasses/modifiers/union_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 6c16b05..1d9b5cf 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -28,7 +28,7 @@ class UnionModifier(Modifier):
                 types.fdef._cdef = ctx.owner.__class__.cdef
             try:
                 return types.modifier.transform(ctx.alterfdef(types.fdef))
-            except:
+            except Exception:
                 continue
         return ctx.val
 
-- 
2.43.0


From 4c23c50dce5cdc9397de36a21a4802fe93dae520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:45 +0000
Subject: [PATCH 45/62] fix: an interrupt while a list is about to change
 reaches the caller

---
 jsonclasses/jsonclassify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e60df36..08944c8 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -864,7 +864,7 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
     name = initial_keypath(olist.keypath)
     try:
         field = self.__class__.cdef.field_named(name)
-    except:
+    except ValueError:
         field = None
     if not field:
         return
-- 
2.43.0


From 17b8bc060c070a01d1ad7ba98528a3169935fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:53 +0000
Subject: [PATCH 46/62] fix: a class given as a class is not replaced by one of
 the same name

---
 jsonclasses/fdef.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index 21351aa..a59abd4 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -374,6 +374,7 @@ class FDef:
             return None
         if isjsonclass(self._raw_inst_types):
             self._inst_cls = cast(type[JObject], self._raw_inst_types)
+            return self._inst_cls
         cgraph = self.cdef.jconf.cgraph
         inst_cls = cgraph.fetch(self._raw_inst_types).cls
         self._inst_cls = inst_cls
-- 
2.43.0


From 54ed82ef3e48d4ea0a5697f51c27d1faf32cdfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:53 +0000
Subject: [PATCH 47/62] fix: validating and saving do not skip objects with
 equal keys

---
 jsonclasses/mgraph.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index ecbd0c9..e8e65ca 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -12,11 +12,9 @@ class MarkClassTable:
         self._memory_id_table = {}
 
     def put(self, object: JObject) -> None:
+        self._memory_id_table[hex(id(object))] = object
         pk = object._id
-        if pk is None:
-            memory_id = hex(id(object))
-            self._memory_id_table[memory_id] = object
-        else:
+        if pk is not None:
             self.putp(pk, object)
 
     def putp(self, pk: Union[str, int], object: JObject) -> None:
@@ -26,24 +24,11 @@ class MarkClassTable:
         self._primary_key_table[str(pk)] = object
 
     def has(self, object: JObject) -> bool:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return True
-        memory_id = hex(id(object))
-        if self._memory_id_table.get(memory_id) is not None:
-            return True
-        return False
+        return self.get(object) is not None
 
     def get(self, object: JObject) -> Optional[JObject]:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return self._primary_key_table.get(str(pk))
-        memory_id = hex(id(object))
-        if self._memory_id_table.get(memory_id) is not None:
-            return self._memory_id_table.get(memory_id)
-        return None
+        # another object with the same primary key is not this object
+        return self._memory_id_table.get(hex(id(object)))
 
     def getp(self, pk: Union[str, int]) -> Optional[JObject]:
         return self._primary_key_table.get(str(pk))
@@ -58,12 +43,12 @@ class MGraph:
     """
 
     def __init__(self):
-        self._class_tables: dict[str, MarkClassTable] = {}
+        self._class_tables: dict[type, MarkClassTable] = {}
 
     def class_table(self, cls: type) -> MarkClassTable[JObject]:
-        if self._class_tables.get(cls.__name__) is None:
-            self._class_tables[cls.__name__] = MarkClassTable()
-        return self._class_tables[cls.__name__]
+        if self._class_tables.get(cls) is None:
+            self._class_tables[cls] = MarkClassTable()
+        return self._class_tables[cls]
 
     def put(self, object: JObject) -> None:
         self.class_table(object.__class__).put(object)
-- 
2.43.0


From 6faba5b80065500ec4686225865c3fd772bb3385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 48/62] fix: linking tells equal objects apart

---
 jsonclasses/jsonclassify.py | 23 +++++++++++++----------
 jsonclasses/olist.py        |  7 ++++++-
 jsonclasses/outils.py       | 23 +++++++++++++++++++++++
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 08944c8..4119f5b 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -13,7 +13,9 @@ from .isjsonclass import isjsonobject
 from .ograph import OGraph
 from .odict import OwnedDict
 from .olist import OwnedList
-from .outils import to_owned_dict, to_owned_list, unowned_copy
+from .outils import (
+    to_owned_dict, to_owned_list, unowned_copy, count_object, same_value
+)
 from .keypath import (
     concat_keypath, initial_keypath, single_key_args, compound_key_args,
     keypath_split
@@ -555,7 +557,7 @@ def _add_unlinked_object(self: JObject,
     """Add an object into unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj not in self._unlinked_objects[field_name]:
+    if count_object(self._unlinked_objects[field_name], obj) == 0:
         self._unlinked_objects[field_name].append(obj)
 
 
@@ -565,8 +567,8 @@ def _del_unlinked_object(self: JObject,
     """Remove an object from unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj in self._unlinked_objects[field_name]:
-        self._unlinked_objects[field_name].remove(obj)
+    pool = self._unlinked_objects[field_name]
+    pool[:] = [o for o in pool if o is not obj]
 
 
 def _clear_unlinked_object(self: JObject) -> None:
@@ -756,7 +758,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 ctx = Ctx.rootctxp(self, name, None, value)
                 field.fdef.setter.modifier.transform(ctx)
             return
-    if hasattr(self, name) and value == getattr(self, name):
+    if hasattr(self, name) and same_value(value, getattr(self, name)):
         return
     # track modified and previous value
     if not self.is_new:
@@ -896,7 +898,7 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if rlist.count(val._id) < olist.count(val):
+            if rlist.count(val._id) < count_object(olist, val):
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
@@ -939,7 +941,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if val is not None and rlist.count(val._id) > olist.count(val):
+            if val is not None and \
+                    rlist.count(val._id) > count_object(olist, val):
                 rlist.remove(val._id)
     # record modified
     if not self.is_new:
@@ -984,7 +987,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
             if isinstance(other_list, list):
-                if self in other_list:
+                if count_object(other_list, self) > 0:
                     other_list.remove(self)
                     item._add_unlinked_object(other_field.name, self)
 
@@ -1005,7 +1008,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         if other_field is None:
             return
         if other_field.fdef.ftype == FType.INSTANCE:
-            if getattr(item, other_field.name) != self:
+            if getattr(item, other_field.name) is not self:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
@@ -1020,7 +1023,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
             else:
-                if self not in getattr(item, other_field.name):
+                if count_object(getattr(item, other_field.name), self) == 0:
                     getattr(item, other_field.name).append(self)
                     item._del_unlinked_object(other_field.name, self)
         self.__link_graph__(item)
diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 2a734bb..783d365 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -1,6 +1,7 @@
 """The owner observable list."""
 from __future__ import annotations
 from typing import Generic, Iterable, Any, Protocol, TypeVar, MutableSequence
+from .isjsonclass import isjsonobject
 
 T_contra = TypeVar('T_contra', contravariant=True)
 _T = TypeVar('_T')
@@ -70,7 +71,11 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
 
     def remove(self, value: _T) -> None:
         self.owner.__olist_will_change__(self)
-        super().remove(value)
+        if isjsonobject(value) and any(v is value for v in self):
+            # this object, and not another one which is equal to it
+            super().__delitem__([v is value for v in self].index(True))
+        else:
+            super().remove(value)
         self.owner.__olist_del__(self, value)
 
     def sort(self, **kwargs) -> None:  # TODO: fix argument type hint
diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 34a0923..7053538 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -5,6 +5,7 @@ from typing import TypeVar, Any
 from .odict import OwnedDict, DictOwner
 from .olist import OwnedList, ListOwner
 from .keypath import concat_keypath
+from .isjsonclass import isjsonobject
 
 KT = TypeVar('KT')
 VT = TypeVar('VT')
@@ -77,3 +78,25 @@ def unowned_copy(value: Any) -> Any:
     if isinstance(value, list):
         return unowned_copy_list(value)
     return value
+
+
+def count_object(objects: list[Any], obj: Any) -> int:
+    """How often the object itself, and not an equal one, is in the list."""
+    return sum(o is obj for o in objects)
+
+
+def same_value(val1: Any, val2: Any) -> bool:
+    """Whether two values are the same. JSON class objects are the same only if
+    they are one object.
+    """
+    if val1 is val2:
+        return True
+    if isjsonobject(val1) or isjsonobject(val2):
+        return False
+    if isinstance(val1, list) and isinstance(val2, list):
+        return len(val1) == len(val2) and all(
+            same_value(v1, v2) for v1, v2 in zip(val1, val2))
+    if isinstance(val1, dict) and isinstance(val2, dict):
+        return len(val1) == len(val2) and all(
+            k in val2 and same_value(v, val2[k]) for k, v in val1.items())
+    return type(val1) is type(val2) and val1 == val2
-- 
2.43.0


From 1e8e2f313ae465deaf1737235e1669e77044b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:18 +0000
Subject: [PATCH 49/62] fix: isobjof finds its class in the graph of the object
 it judges

---
 jsonclasses/modifiers/isobjof_modifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/isobjof_modifier.py b/jsonclasses/modifiers/isobjof_modifier.py
index ea9caee..e1321d7 100644
--- a/jsonclasses/modifiers/isobjof_modifier.py
+++ b/jsonclasses/modifiers/isobjof_modifier.py
@@ -15,7 +15,8 @@ class IsObjOfModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             ctx.raise_vexc('none is not object of a class')
-        if type(self.cls) is str:
-            self.cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(self.cls).cls
-        if not isinstance(ctx.val, self.cls):
-            ctx.raise_vexc(f'value is not instance of {self.cls.__name__}')
+        cls = self.cls
+        if type(cls) is str:
+            cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(cls).cls
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
-- 
2.43.0


From 76bfc9f6bcc328381e341dea4621ab14161e1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:44 +0000
Subject: [PATCH 50/62] fix: objects of classes with the same name are told
 apart by isobj

---
 jsonclasses/modifiers/fval_modifier.py  | 4 ++--
 jsonclasses/modifiers/isobj_modifier.py | 6 +++---
 jsonclasses/objref.py                   | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/modifiers/fval_modifier.py b/jsonclasses/modifiers/fval_modifier.py
index fa08cb9..d7c8dce 100644
--- a/jsonclasses/modifiers/fval_modifier.py
+++ b/jsonclasses/modifiers/fval_modifier.py
@@ -30,11 +30,11 @@ class FValModifier(Modifier):
             else:
                 kt = val.__class__.cdef.jconf.ref_name_strategy
                 fidname = kt(field)
-                cls_name = field.fdef.inst_cls.__name__
+                cls = field.fdef.inst_cls
                 ref_id = getattr(val, fidname)
                 if ref_id is None:
                     return None
                 else:
-                    return ObjRef(cls=cls_name, id=ref_id)
+                    return ObjRef(cls=cls, id=ref_id)
         else:
             return obj
diff --git a/jsonclasses/modifiers/isobj_modifier.py b/jsonclasses/modifiers/isobj_modifier.py
index 37541b0..95c9cdf 100644
--- a/jsonclasses/modifiers/isobj_modifier.py
+++ b/jsonclasses/modifiers/isobj_modifier.py
@@ -25,19 +25,19 @@ class IsObjModifier(Modifier):
         this = cast(JObject | ObjRef, ctx.val)
         that = cast(JObject | ObjRef, transformed)
         if isjsonobject(this):
-            this_cls = this.__class__.__name__
+            this_cls = this.__class__
             this_id = this._id
         else:
             this_cls = this.cls
             this_id = this.id
         if isjsonobject(that):
-            that_cls = that.__class__.__name__
+            that_cls = that.__class__
             that_id = that._id
         else:
             that_cls = that.cls
             that_id = that.id
         if this is that:
             return
-        if this_id is not None and that_cls == this_cls and that_id == this_id:
+        if this_id is not None and that_cls is this_cls and that_id == this_id:
             return
         ctx.raise_vexc('objects are not equal')
diff --git a/jsonclasses/objref.py b/jsonclasses/objref.py
index 84b0912..f68209d 100644
--- a/jsonclasses/objref.py
+++ b/jsonclasses/objref.py
@@ -2,5 +2,5 @@ from typing import NamedTuple
 
 
 class ObjRef(NamedTuple):
-    cls: str
+    cls: type
     id: str | int
-- 
2.43.0


From 101a6f7254c5b906dc6eb18073c326ebc8d489b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:21 +0000
Subject: [PATCH 51/62] fix: reset restores references and their keys

---
 jsonclasses/jsonclassify.py | 49 ++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 4119f5b..479c468 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -334,11 +334,15 @@ def reset(self: JObject) -> None:
         raise JSONClassResetNotEnabledError()
     if self.is_new:
         raise JSONClassResetError()
-    for k, v in self.previous_values.items():
+    previous_keys = dict(self._previous_keys)
+    for k, v in dict(self.previous_values).items():
         setattr(self, k, v)
-        self._modified_fields = set()
-        self._is_modified = False
-        self._previous_values = {}
+    # keys of objects which are not fetched
+    for k, v in previous_keys.items():
+        if isinstance(v, list):
+            v = to_owned_list(self, v, k)
+        self.__original_setattr__(k, v)
+    self._mark_unmodified()
 
 
 def save(self: JObject,
@@ -391,16 +395,17 @@ def restore(self: JObject) -> JObject:
 def _keeping_status(objects: list[JObject]) -> Iterator[None]:
     """Fetching values and objects doesn't modify any of the objects."""
     saved = [(o, o._is_modified, set(o._modified_fields),
-              dict(o._previous_values),
+              dict(o._previous_values), dict(o._previous_keys),
               {k: list(v) for k, v in o._unlinked_objects.items()})
              for o in objects]
     try:
         yield
     finally:
-        for o, is_modified, modified_fields, previous, unlinked in saved:
+        for o, is_modified, modified_fields, previous, keys, unlinked in saved:
             o._is_modified = is_modified
             o._modified_fields = modified_fields
             o._previous_values = previous
+            o._previous_keys = keys
             o._unlinked_objects = unlinked
 
 
@@ -493,6 +498,7 @@ def _mark_new(self: JObject) -> None:
     setattr(self, '_is_modified', False)
     setattr(self, '_modified_fields', set())
     setattr(self, '_previous_values', {})
+    setattr(self, '_previous_keys', {})
 
 
 def _mark_unmodified(self: JObject) -> None:
@@ -501,6 +507,7 @@ def _mark_unmodified(self: JObject) -> None:
     setattr(self, '_is_modified', False)
     setattr(self, '_modified_fields', set())
     setattr(self, '_previous_values', {})
+    setattr(self, '_previous_keys', {})
 
 
 def _set_initial_status(self: JObject) -> None:
@@ -697,6 +704,21 @@ def _previous_id(self: JObject) -> str | int | None:
     return self._id
 
 
+def _record_previous(self: JObject, field: JField) -> None:
+    """Record the value to be reset to before this field is modified."""
+    if self.is_new:
+        return
+    if not self.__class__.cdef.jconf.reset_all_fields and \
+            not field.fdef.has_reset_modifier:
+        return
+    if field.name in self.previous_values:
+        return
+    self.previous_values[field.name] = unowned_copy(getattr(self, field.name))
+    if field.fdef.fstore == FStore.LOCAL_KEY:
+        ref_name = self.__class__.cdef.jconf.ref_name_strategy(field)
+        self._previous_keys[ref_name] = unowned_copy(getattr(self, ref_name))
+
+
 def __is_private_attr__(name: str) -> bool:
     """Returns true if the attribute name indicates private attribute."""
     return name.startswith('_')
@@ -713,6 +735,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
             return
         field_name = self._local_key_map[name]
         field = self.__class__.cdef.field_named(field_name)
+        self._record_previous(field)
         if field.fdef.ftype == FType.INSTANCE:
             if value is None:
                 self.__original_setattr__(name, value)
@@ -763,12 +786,8 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
     # track modified and previous value
     if not self.is_new:
         setattr(self, '_is_modified', True)
+        self._record_previous(field)
         self._modified_fields.add(name)
-        if self.__class__.cdef.jconf.reset_all_fields or \
-                field.fdef.has_reset_modifier:
-            if name not in self.previous_values:
-                self.previous_values[name] = unowned_copy(
-                    getattr(self, name))
     # make list and dict assignments owned and monitored
     if isinstance(value, list):
         value = to_owned_list(self, value, name)
@@ -863,6 +882,10 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
     if self.is_new:
         return
     # record previous value
+    if olist.keypath in self._local_keys:
+        self._record_previous(self.__class__.cdef.field_named(
+            self._local_key_map[olist.keypath]))
+        return
     name = initial_keypath(olist.keypath)
     try:
         field = self.__class__.cdef.field_named(name)
@@ -872,6 +895,8 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
         return
     if self.__class__.cdef.jconf.reset_all_fields or \
             field.fdef.has_reset_modifier:
+        if field.fdef.fstore == FStore.LOCAL_KEY:
+            self._record_previous(field)
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
@@ -975,6 +1000,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
             return
         if other_field.fdef.ftype == FType.INSTANCE:
             if getattr(item, other_field.name) is self:
+                item._record_previous(other_field)
                 item.__original_setattr__(other_field.name, None)
                 of = other_field
                 if of.fdef.fstore == FStore.LOCAL_KEY:
@@ -1110,6 +1136,7 @@ def jsonclassify(class_: type) -> type[JObject]:
     class_._run_on_delete_callbacks = _run_on_delete_callbacks
     class_._id = _id
     class_._previous_id = _previous_id
+    class_._record_previous = _record_previous
     # private methods
     class_.__original_setattr__ = class_.__setattr__
     class_.__setattr__ = __setattr__
-- 
2.43.0


From 13db60105f9368be5b405130e68acf91501874d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:56 +0000
Subject: [PATCH 52/62] fix: adding or removing a key by input keeps the other
 links

---
 jsonclasses/modifiers/listof_modifier.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/jsonclasses/modifiers/listof_modifier.py b/jsonclasses/modifiers/listof_modifier.py
index e193249..09dfe7a 100644
--- a/jsonclasses/modifiers/listof_modifier.py
+++ b/jsonclasses/modifiers/listof_modifier.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 from typing import Any, Collection, Iterable, TYPE_CHECKING
 from ..fdef import FDef, FStore, FType, Nullability
+from ..outils import count_object
 from .collection_type_modifier import CollectionTypeModifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -30,6 +31,22 @@ class ListOfModifier(CollectionTypeModifier):
     def append_value(self, i: int, v: Any, col: list):
         col.append(v)
 
+    def transform(self, ctx: Ctx) -> Any:
+        retval = super().transform(ctx)
+        if not isinstance(ctx.val, list):
+            return retval
+        changes = [v for i, v in enumerate(ctx.val)
+                   if self.should_special_handle(i, v, ctx)]
+        if not changes:
+            return retval
+        # only the named keys are added and removed, others are kept
+        current = getattr(ctx.owner, ctx.keypatho[-1])
+        if current is None and not retval:
+            return None
+        removed = [v['_del'] for v in changes if '_add' not in v]
+        kept = [v for v in current or [] if v._id not in removed]
+        return kept + [v for v in retval if count_object(kept, v) == 0]
+
     def should_special_handle(self, key: Any, v: Any, ctx: Ctx) -> bool:
         is_lkey = ctx.fdef.fstore == FStore.LOCAL_KEY
         is_fkey = ctx.fdef.fstore == FStore.FOREIGN_KEY
-- 
2.43.0


From 1185037471a61ae7e78bfd00d7887f77308b962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:17 +0000
Subject: [PATCH 53/62] fix: reset restores lists and dicts of any and union
 fields changed in place

---
 jsonclasses/jsonclassify.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 479c468..5a0d6ef 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -851,9 +851,7 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype in [FType.DICT, FType.LIST]:
-                self.previous_values[name] = unowned_copy(
-                    getattr(self, name))
+            self.previous_values[name] = unowned_copy(getattr(self, name))
 
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
@@ -900,9 +898,7 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype in [FType.DICT, FType.LIST]:
-                self.previous_values[name] = unowned_copy(
-                    getattr(self, name))
+            self.previous_values[name] = unowned_copy(getattr(self, name))
 
 
 def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
-- 
2.43.0


From 380b4bcf764e31eaea392d2f0467d7d0a734f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:26 +0000
Subject: [PATCH 54/62] fix: onupdate is not called for a field which is not
 modified

---
 jsonclasses/modifiers/onupdate_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/onupdate_modifier.py b/jsonclasses/modifiers/onupdate_modifier.py
index 22136cd..44301f3 100644
--- a/jsonclasses/modifiers/onupdate_modifier.py
+++ b/jsonclasses/modifiers/onupdate_modifier.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 from typing import Callable, Any, cast, TYPE_CHECKING
 from inspect import signature
+from ..keypath import initial_keypaths
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -24,7 +25,8 @@ class OnUpdateModifier(Modifier):
         from ..jobject import JObject
         name = ctx.keypathp[-1]
         parent = cast(JObject, ctx.parent)
-        if name not in parent.previous_values:
+        if name not in parent.previous_values or \
+                name not in initial_keypaths(parent.modified_fields):
             return ctx.val
         prev_value = parent.previous_values[name]
         params_len = len(signature(self.callback).parameters)
-- 
2.43.0


From b1969b959916896c69aebfa9111001ab9f53f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:19 +0000
Subject: [PATCH 55/62] fix: trying the types of a union does not mark objects
 as handled

---
 jsonclasses/mgraph.py                   | 14 ++++++++++++++
 jsonclasses/modifiers/union_modifier.py | 14 +++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index e8e65ca..7df7e67 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -36,6 +36,10 @@ class MarkClassTable:
     def getm(self, memid: int) -> Optional[JObject]:
         return self._memory_id_table.get(hex(memid))
 
+    def merge(self, other: MarkClassTable) -> None:
+        self._primary_key_table.update(other._primary_key_table)
+        self._memory_id_table.update(other._memory_id_table)
+
 
 class MGraph:
     """The mark graph is a graph containing JSON Class objects. It's used for
@@ -70,6 +74,16 @@ class MGraph:
              memid: int) -> Optional[JObject]:
         return self.class_table(cls).getm(memid)
 
+    def merge(self, other: MGraph) -> None:
+        """Mark everything that is marked in the other graph."""
+        for cls, table in other._class_tables.items():
+            self.class_table(cls).merge(table)
+
+    def copy(self) -> MGraph:
+        retval = MGraph()
+        retval.merge(self)
+        return retval
+
     def __iter__(self) -> Iterator:
         lst = []
         for ct in self._class_tables.values():
diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 1d9b5cf..c6258e8 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -38,8 +38,12 @@ class UnionModifier(Modifier):
         for types in ctx.fdef.raw_union_types:
             if types.fdef._cdef is None:
                 types.fdef._cdef = ctx.owner.__class__.cdef
+            # what a type refuses is not validated for the next one
+            mgraph = ctx.mgraph.copy()
             try:
-                types.modifier.validate(ctx.alterfdef(types.fdef))
+                types.modifier.validate(
+                    ctx.alterfdef(types.fdef)._replace(mgraph=mgraph))
+                ctx.mgraph.merge(mgraph)
                 return
             except ValidationException:
                 continue
@@ -53,7 +57,9 @@ class UnionModifier(Modifier):
                 types.fdef._cdef = ctx.owner.__class__.cdef
             try:
                 newctx = ctx.alterfdef(types.fdef)
-                types.modifier.validate(newctx)
+                # trying a type does not mark the objects as handled
+                types.modifier.validate(
+                    newctx._replace(mgraph=ctx.mgraph.copy()))
                 return types.modifier.serialize(newctx)
             except ValidationException:
                 continue
@@ -67,7 +73,9 @@ class UnionModifier(Modifier):
                 types.fdef._cdef = ctx.owner.__class__.cdef
             try:
                 newctx = ctx.alterfdef(types.fdef)
-                types.modifier.validate(newctx)
+                # trying a type does not mark the objects as handled
+                types.modifier.validate(
+                    newctx._replace(mgraph=ctx.mgraph.copy()))
                 return types.modifier.tojson(newctx)
             except ValidationException:
                 continue
-- 
2.43.0


From 2d5c0fa42fc9b58e617027a6fe822eb3038be137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:34 +0000
Subject: [PATCH 56/62] fix: saving keeps the value of a union none of whose
 types accepts it, and reports what fails on save

---
 jsonclasses/modifiers/union_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index c6258e8..c283783 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -55,15 +55,15 @@ class UnionModifier(Modifier):
         for types in ctx.fdef.raw_union_types:
             if types.fdef._cdef is None:
                 types.fdef._cdef = ctx.owner.__class__.cdef
+            newctx = ctx.alterfdef(types.fdef)
             try:
-                newctx = ctx.alterfdef(types.fdef)
                 # trying a type does not mark the objects as handled
                 types.modifier.validate(
                     newctx._replace(mgraph=ctx.mgraph.copy()))
-                return types.modifier.serialize(newctx)
             except ValidationException:
                 continue
-        return None
+            return types.modifier.serialize(newctx)
+        return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
         if ctx.val is None:
-- 
2.43.0


From 41d65223627d4ce7eb8ff3ad3a98170d5882ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:46 +0000
Subject: [PATCH 57/62] fix: onwrite is called for a list or dict changed in
 place

---
 jsonclasses/modifiers/onwrite_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/onwrite_modifier.py b/jsonclasses/modifiers/onwrite_modifier.py
index 172c59e..d789f88 100644
--- a/jsonclasses/modifiers/onwrite_modifier.py
+++ b/jsonclasses/modifiers/onwrite_modifier.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 from typing import Callable, Any, cast, TYPE_CHECKING
 from inspect import signature
+from ..keypath import initial_keypaths
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -24,7 +25,8 @@ class OnWriteModifier(Modifier):
         from ..jobject import JObject
         name = ctx.keypathp[-1]
         parent = cast(JObject, ctx.parent)
-        if not parent.is_new and name not in parent.modified_fields:
+        if not parent.is_new and \
+                name not in initial_keypaths(parent.modified_fields):
             return ctx.val
         params_len = len(signature(self.callback).parameters)
         if params_len == 0:
-- 
2.43.0


From acc5f2d142b23865035f23822fa7d083e391a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 58/62] fix: the output of an any field is not a part of the
 object

---
 jsonclasses/modifiers/any_modifier.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jsonclasses/modifiers/any_modifier.py b/jsonclasses/modifiers/any_modifier.py
index a212e25..b5ee625 100644
--- a/jsonclasses/modifiers/any_modifier.py
+++ b/jsonclasses/modifiers/any_modifier.py
@@ -1,7 +1,10 @@
 """module for alnum modifier."""
 from __future__ import annotations
+from typing import Any, TYPE_CHECKING
 from ..fdef import FDef, FType
 from .modifier import Modifier
+if TYPE_CHECKING:
+    from ..ctx import Ctx
 
 
 class AnyModifier(Modifier):
@@ -9,3 +12,14 @@ class AnyModifier(Modifier):
 
     def define(self, fdef: FDef) -> None:
         fdef._ftype = FType.ANY
+
+    def tojson(self, ctx: Ctx) -> Any:
+        return self._plain(ctx.val)
+
+    def _plain(self, val: Any) -> Any:
+        # the output does not share lists and dicts with the object
+        if isinstance(val, list):
+            return [self._plain(v) for v in val]
+        if isinstance(val, dict):
+            return {k: self._plain(v) for k, v in val.items()}
+        return val
-- 
2.43.0


From 27db11ec8ce6384b42fc13068f440abed1afa9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:15 +0000
Subject: [PATCH 59/62] fix: an asop transformer with three parameters is asked

---
 jsonclasses/jsonclassify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 5a0d6ef..1082a67 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -251,6 +251,11 @@ def opby(self: JObject, operator: Any) -> JObject:
                     setattr(self, fidname, transformer(operator)._id)
                 elif params_len == 2:
                     setattr(self, fidname, transformer(operator, self)._id)
+                elif params_len == 3:
+                    ctx = Ctx.rootctxp(self, field.name,
+                                       getattr(self, field.name), operator)
+                    setattr(self, fidname,
+                            transformer(operator, self, ctx)._id)
             else:
                 setattr(self, fidname, operator._id)
     return self
-- 
2.43.0


From c35b6fbca46af09df7012c92dd5bbca8034aa88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:25 +0000
Subject: [PATCH 60/62] fix: changes in list items which moved are reported
 where the items are

---
 jsonclasses/jsonclassify.py |  5 ++++-
 jsonclasses/outils.py       | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 1082a67..461be5d 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -14,7 +14,8 @@ from .ograph import OGraph
 from .odict import OwnedDict
 from .olist import OwnedList
 from .outils import (
-    to_owned_dict, to_owned_list, unowned_copy, count_object, same_value
+    to_owned_dict, to_owned_list, renew_keypaths, unowned_copy, count_object,
+    same_value
 )
 from .keypath import (
     concat_keypath, initial_keypath, single_key_args, compound_key_args,
@@ -508,6 +509,8 @@ def _mark_new(self: JObject) -> None:
 
 def _mark_unmodified(self: JObject) -> None:
     """Mark this jsonclass object as an unmodified object."""
+    for name, value in self._data_dict.items():
+        renew_keypaths(value, name)
     setattr(self, '_is_new', False)
     setattr(self, '_is_modified', False)
     setattr(self, '_modified_fields', set())
diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 7053538..9d96fd6 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -46,6 +46,21 @@ def to_owned_list(owner: ListOwner,
     return owned_list
 
 
+def renew_keypaths(value: Any, keypath: str) -> None:
+    """Items of an owned list move when it's changed. Name the owned lists and
+    dicts in the value after the places where they are now.
+    """
+    if isinstance(value, OwnedList):
+        items = enumerate(value)
+    elif isinstance(value, OwnedDict):
+        items = value.items()
+    else:
+        return
+    value.keypath = keypath
+    for k, v in items:
+        renew_keypaths(v, concat_keypath(keypath, k))
+
+
 def unowned_copy_dict(any_dict: dict[KT, VT]) -> dict[KT, VT]:
     retval = {}
     for k, v in any_dict.items():
-- 
2.43.0


From f3f7be3ce8fbf18fab2eb1857fa3c3a7183ace90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 61/62] fix: a required list of links without a value is
 judged, not a crash

---
 jsonclasses/modifiers/required_modifier.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/modifiers/required_modifier.py b/jsonclasses/modifiers/required_modifier.py
index caf7467..e744dfe 100644
--- a/jsonclasses/modifiers/required_modifier.py
+++ b/jsonclasses/modifiers/required_modifier.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 from ..fdef import FDef
 from .modifier import Modifier
-from ..fdef import FStore
+from ..fdef import FStore, FType
 from ..jconf import JConf
 from ..isjsonclass import isjsonobject
 if TYPE_CHECKING:
@@ -24,16 +24,21 @@ class RequiredModifier(Modifier):
             return
         if storage == FStore.LOCAL_KEY:
             if ctx.val is None:  # check key presence
-                jconf: JConf = ctx.holder.__class__.cdef.jconf
-                ko = str(ctx.keypathh[0])
-                field = ctx.holder.__class__.cdef.field_named(ko)
+                if ctx.fdef.ftype == FType.LIST:
+                    holder = ctx.owner
+                    ko = str(ctx.keypatho[0])
+                else:
+                    holder = ctx.holder
+                    ko = str(ctx.keypathh[0])
+                jconf: JConf = holder.__class__.cdef.jconf
+                field = holder.__class__.cdef.field_named(ko)
                 local_key = jconf.ref_name_strategy(field)
-                if isinstance(ctx.holder, dict):
-                    if ctx.holder.get(local_key) is None:
+                if isinstance(holder, dict):
+                    if holder.get(local_key) is None:
                         ctx.raise_vexc('value required')
-                elif isjsonobject(ctx.holder):
+                elif isjsonobject(holder):
                     try:
-                        local_key_value = getattr(ctx.holder, local_key)
+                        local_key_value = getattr(holder, local_key)
                     except AttributeError:
                         ctx.raise_vexc('value required')
                     if local_key_value is None:
-- 
2.43.0


From 134107590e600f0ac50fdf01a79738d970e3fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 62/62] fix: a wrong kind of item in a list of links is judged,
 not a crash

---
 jsonclasses/jsonclassify.py | 49 +++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 461be5d..85a3beb 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -761,8 +761,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
             else:
                 new_list = []
                 curvals = getattr(self, field_name)
-                if curvals is None:
-                    curvals = []
+                curvals = _linkable_items(field, curvals)
                 for item in value:
                     existitem = next((v for v in curvals if v._id == item), None)
                     if existitem is not None:
@@ -819,9 +818,8 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     self.__original_setattr__(rname, olist)
                 else:
                     keys = []
-                    for item in value:
-                        if item is not None:
-                            keys.append(item._id)
+                    for item in _linkable_items(field, value):
+                        keys.append(item._id)
                     olist = to_owned_list(self, keys, rname)
                     self.__original_setattr__(rname, olist)
         self.__link_field__(field, value)
@@ -927,7 +925,8 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if rlist.count(val._id) < count_object(olist, val):
+            if isinstance(val, field.foreign_class) and \
+                    rlist.count(val._id) < count_object(olist, val):
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
@@ -955,7 +954,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
         if isinstance(flist, list):
             # TODO: reorder flist here
             # TODO: replace the underneath implementation
-            matches = [v for v in flist if v._id == val]
+            matches = [v for v in _linkable_items(
+                cdef.field_named(fname), flist) if v._id == val]
             if len(matches) > olist.count(val):
                 flist.remove(matches[0])
         return
@@ -970,7 +970,7 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if val is not None and \
+            if isinstance(val, field.foreign_class) and \
                     rlist.count(val._id) > count_object(olist, val):
                 rlist.remove(val._id)
     # record modified
@@ -987,17 +987,21 @@ def __olist_sor__(self, olist: OwnedList) -> None:
         self._modified_fields.add(olist.keypath)
 
 
-def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
-    items: list[JObject] = []
+def _linkable_items(field: JField, value: Any) -> list[JObject]:
+    """The objects in the value of a reference field. Anything of a wrong kind
+    is not linked, and left to the validation.
+    """
+    items: list[Any] = []
     if field.fdef.ftype == FType.INSTANCE:
-        if not isjsonobject(value):
-            return
         items = [value]
-    if field.fdef.ftype == FType.LIST:
-        if not isinstance(value, list):
-            return
-        items = list(value)
-    for item in items:
+    elif field.fdef.ftype == FType.LIST and isinstance(value, list):
+        items = value
+    return [item for item in items
+            if item is not None and isinstance(item, field.foreign_class)]
+
+
+def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
+    for item in _linkable_items(field, value):
         self._add_unlinked_object(field.name, item)
         other_field = field.foreign_field
         if other_field is None:
@@ -1023,16 +1027,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
 
 
 def __link_field__(self: JObject, field: JField, value: Any) -> None:
-    items: list[JObject] = []
-    if field.fdef.ftype == FType.INSTANCE:
-        if not isjsonobject(value):
-            return
-        items = [value]
-    if field.fdef.ftype == FType.LIST:
-        if not isinstance(value, list):
-            return
-        items = value
-    for item in items:
+    for item in _linkable_items(field, value):
         self._del_unlinked_object(field.name, item)
         other_field = field.foreign_field
         if other_field is None:
-- 
2.43.0

