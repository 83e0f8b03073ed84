From d2893d3973b598d6c9ddfc2e2ea8a00b8c838aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 01/40] fix: ListConfig slicing follows Python's slice
 semantics

Out-of-range negative bounds raised ValueError and several negative-step
slices returned the wrong elements.
---
 omegaconf/listconfig.py | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 20a8f81..12ba272 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -1,5 +1,4 @@
 import copy
-import itertools
 from typing import (
     Any,
     Callable,
@@ -200,16 +199,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert isinstance(self.__dict__["_content"], list)
             if isinstance(index, slice):
                 result = []
-                start, stop, step = self._correct_index_params(index)
-                for slice_idx in itertools.islice(
-                    range(0, len(self)), start, stop, step
-                ):
+                for slice_idx in range(*index.indices(len(self))):
                     val = self._resolve_with_default(
                         key=slice_idx, value=self.__dict__["_content"][slice_idx]
                     )
                     result.append(val)
-                if index.step and index.step < 0:
-                    result.reverse()
                 return result
             else:
                 return self._resolve_with_default(
@@ -218,31 +212,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         except Exception as e:
             self._format_and_raise(key=index, value=None, cause=e)
 
-    def _correct_index_params(self, index: slice) -> Tuple[int, int, int]:
-        start = index.start
-        stop = index.stop
-        step = index.step
-        if index.start and index.start < 0:
-            start = self.__len__() + index.start
-        if index.stop and index.stop < 0:
-            stop = self.__len__() + index.stop
-        if index.step and index.step < 0:
-            step = abs(step)
-            if start and stop:
-                if start > stop:
-                    start, stop = stop + 1, start + 1
-                else:
-                    start = stop = 0
-            elif not start and stop:
-                start = list(range(self.__len__() - 1, stop, -step))[0]
-                stop = None
-            elif start and not stop:
-                stop = start + 1
-                start = (stop - 1) % step
-            else:
-                start = (self.__len__() - 1) % step
-        return start, stop, step
-
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
         self._set_item_impl(index, value)
 
-- 
2.43.0


From 54a7aaa0083a1507f0952d8bdecda6fbea88d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 02/40] fix: ListConfig.insert accepts negative and out of
 range indices like list.insert

A negative index overwrote the element it pointed at and left a raw None in
the list; an out of range index raised and left the raw None behind.
---
 omegaconf/listconfig.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 12ba272..c773692 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -291,6 +291,12 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot insert into missing ListConfig")
 
+            # same index semantics as list.insert(): negative indices count from
+            # the end, and out of range indices are clamped
+            if index < 0:
+                index = max(0, index + len(self))
+            index = min(index, len(self))
+
             try:
                 assert isinstance(self.__dict__["_content"], list)
                 # insert place holder
-- 
2.43.0


From 4be079a14d2792072915977b4f1a71ca90713701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 03/40] fix: ListConfig.insert does not re-parent the config
 node it is given

Inserting a node of another config changed that node's parent and key in the
other config.
---
 omegaconf/listconfig.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index c773692..3d92dbe 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -302,6 +302,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
                 is_optional, ref_type = _resolve_optional(self._metadata.element_type)
+                if isinstance(item, Node):
+                    # _maybe_wrap() re-parents nodes, do not modify the input
+                    item = copy.deepcopy(item)
                 node = _maybe_wrap(
                     ref_type=ref_type,
                     key=index,
-- 
2.43.0


From a069615f8c9148a4af80a68a0e59a4636b370c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 04/40] fix: ListConfig.sort updates element keys,
 ListConfig.extend(self) terminates

After a sort the elements kept the keys (and full keys) of their old
positions. Extending a list with itself never ended.
---
 omegaconf/listconfig.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 3d92dbe..86c9635 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -325,6 +325,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def extend(self, lst: Iterable[Any]) -> None:
         assert isinstance(lst, (tuple, list, ListConfig))
+        if lst is self:
+            lst = list(self)
         for x in lst:
             self.append(x)
 
@@ -482,7 +484,10 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     return key(x._value())
 
             assert isinstance(self.__dict__["_content"], list)
-            self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            try:
+                self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            finally:
+                self._update_keys()
 
         except Exception as e:
             self._format_and_raise(key=None, value=None, cause=e)
-- 
2.43.0


From e14b665826a222cacbec733a8e4dd5829537e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 05/40] fix: ListConfig item and slice assignment keep keys and
 untouched elements

Assigning a container to a negative index stored the negative index as the
element's key. Slice assignment re-added the untouched elements by value: a
missing value elsewhere in the list made it fail after the list was emptied,
and interpolations elsewhere were replaced by their current values.
---
 omegaconf/listconfig.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 86c9635..457f364 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -252,10 +252,16 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     curr_index += 1
                     work_copy.insert(curr_index, value[val_i])
 
-                # Reinitialize self with work_copy
-                self.clear()
-                self.extend(work_copy)
+                if self._get_flag("readonly"):
+                    raise ReadonlyConfigError("ListConfig is read-only")
+
+                # Take over the nodes of work_copy as they are (missing values and
+                # interpolations included)
+                self.__dict__["_content"] = work_copy.__dict__["_content"]
+                self._re_parent()
             else:
+                if isinstance(index, int) and -len(self) <= index < 0:
+                    index += len(self)
                 self._set_at_index(index, value)
         except Exception as e:
             self._format_and_raise(key=index, value=value, cause=e)
-- 
2.43.0


From 4da163d383186d3e85194dcbacb124d3c63a56de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 06/40] fix: DictConfig.clear works with missing values and
 unresolvable interpolations

clear() read every value before deleting it, raising half way.
---
 omegaconf/dictconfig.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 11b2e70..d983d8c 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -514,6 +514,12 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         except Exception as e:
             self._format_and_raise(key=key, value=None, cause=e)
 
+    def clear(self) -> None:
+        # MutableMapping.clear() pops (reads) the values, which may be missing or
+        # interpolations that cannot be resolved.
+        for key in list(self.keys()):
+            del self[key]
+
     def keys(self) -> KeysView[DictKeyType]:
         if self._is_missing() or self._is_interpolation() or self._is_none():
             return {}.keys()
-- 
2.43.0


From 930be4acb3c3571c44eb9e65ba9f9901c5a627ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 07/40] fix: a failed assignment to a DictConfig or ListConfig
 node restores its metadata

---
 omegaconf/dictconfig.py | 5 ++++-
 omegaconf/listconfig.py | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index d983d8c..532cd9b 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -643,11 +643,14 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         self._metadata.object_type = object_type
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        # shallow copy: _set_value_impl assigns object_type and flags
+        previous_metadata = copy.copy(self.__dict__["_metadata"])
         try:
-            previous_content = self.__dict__["_content"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
+            self.__dict__["_metadata"] = previous_metadata
             raise e
 
     def _set_value_impl(
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 457f364..9f38271 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -597,9 +597,10 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return False
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        # shallow copy: _set_value_impl assigns object_type and flags
+        previous_metadata = copy.copy(self.__dict__["_metadata"])
         try:
-            previous_content = self.__dict__["_content"]
-            previous_metadata = self.__dict__["_metadata"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
-- 
2.43.0


From af64872837dcb3210f2ea296a65b391917e399d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 08/40] fix: ListConfig.insert validates nodes like append

---
 omegaconf/listconfig.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 9f38271..315e35b 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -285,8 +285,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 node._metadata.key = i
 
     def insert(self, index: int, item: Any) -> None:
-        from omegaconf.omegaconf import _maybe_wrap
-
         try:
             if self._get_flag("readonly"):
                 raise ReadonlyConfigError("Cannot insert into a read-only ListConfig")
@@ -307,19 +305,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 assert isinstance(self.__dict__["_content"], list)
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
-                is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-                if isinstance(item, Node):
-                    # _maybe_wrap() re-parents nodes, do not modify the input
-                    item = copy.deepcopy(item)
-                node = _maybe_wrap(
-                    ref_type=ref_type,
-                    key=index,
-                    value=item,
-                    is_optional=is_optional,
-                    parent=self,
-                )
-                self._validate_set(key=index, value=node)
-                self._set_at_index(index, node)
+                self._set_item_impl(index, item)
                 self._update_keys()
             except Exception:
                 del self.__dict__["_content"][index]
-- 
2.43.0


From 4833cb8a6be5b2f92f566be28d5c1cbb35104c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 09/40] fix: nodes assigned to typed fields and elements are
 validated against the declared type

---
 omegaconf/basecontainer.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 14e8667..c76ce22 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -28,6 +28,7 @@ from ._utils import (
     is_structured_config,
     is_tuple_annotation,
     is_union_annotation,
+    type_str,
 )
 from .base import (
     Box,
@@ -606,6 +607,19 @@ class BaseContainer(Container, ABC):
             _deep_update_type_hint(node=v, type_hint=self._metadata.element_type)
             self.__dict__["_content"][value_key] = v
 
+        if input_is_typed_vnode and (
+            (self._metadata.element_type not in (None, Any) and _is_special(value))
+            or (
+                is_structured_config(self._metadata.object_type)
+                and target_node_ref is not None
+                and target_node_ref._has_ref_type()
+            )
+        ):
+            # the declared type of an element or of a structured config field does
+            # not change with the type of the input node: use the value of the node
+            value = value._value()
+            input_is_node = input_is_typed_vnode = False
+
         if input_is_typed_vnode and not is_union_annotation(target_ref_type):
             assign(key, value)
         else:
@@ -644,12 +658,12 @@ class BaseContainer(Container, ABC):
                 self._wrap_value_and_set(key, value, target_type_hint)
 
     def _wrap_value_and_set(self, key: Any, val: Any, type_hint: Any) -> None:
-        from omegaconf.omegaconf import _maybe_wrap
+        from omegaconf.omegaconf import _node_wrap
 
         is_optional, ref_type = _resolve_optional(type_hint)
 
         try:
-            wrapped = _maybe_wrap(
+            wrapped = _node_wrap(
                 ref_type=ref_type,
                 key=key,
                 value=val,
@@ -910,12 +924,22 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
     elif vk == ValueKind.VALUE:
         if is_primitive_type_annotation(ref_type) and isinstance(node, ValueNode):
             value = node._value()
-            if not isinstance(value, ref_type):
+            if not isinstance(value, ref_type) or (
+                isinstance(value, bool) and ref_type is int
+            ):
                 raise ValidationError(
                     f"Value {value!r} ({type(value).__name__})"
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
+            object_type = node._metadata.object_type
+            if not is_structured_config(object_type) or not issubclass(
+                object_type, ref_type
+            ):
+                raise ValidationError(
+                    f"Invalid type assigned: {type_str(object_type)} is not a "
+                    + f"subclass of {type_str(ref_type)}. value: {node}"
+                )
             return
         elif is_dict_annotation(ref_type) and isinstance(node, DictConfig):
             return
-- 
2.43.0


From f502e6203b43ecf09a1ed7ae671767f707842792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 10/40] fix: ListConfig.reverse reverses the elements without
 reading them

---
 omegaconf/listconfig.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 315e35b..8c183b2 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -485,6 +485,19 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=None, value=None, cause=e)
             assert False
 
+    def reverse(self) -> None:
+        # MutableSequence.reverse() reads and assigns the values, which may be missing
+        # or interpolations.
+        try:
+            if self._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot reverse a read-only ListConfig")
+            if isinstance(self.__dict__["_content"], list):
+                self.__dict__["_content"].reverse()
+                self._update_keys()
+        except Exception as e:
+            self._format_and_raise(key=None, value=None, cause=e)
+            assert False
+
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, (list, tuple)) or other is None:
             other = ListConfig(other, flags={"allow_objects": True})
-- 
2.43.0


From 06e2bc4c98a6af0b6ccdc99b7e7ec1bf4756c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:13 +0000
Subject: [PATCH 11/40] fix: a read-only union field is not changed by merging
 into it

---
 omegaconf/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 39667d9..fc88baa 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -29,6 +29,7 @@ from .errors import (
     InterpolationToMissingValueError,
     InterpolationValidationError,
     MissingMandatoryValue,
+    ReadonlyConfigError,
     UnsupportedInterpolationType,
     ValidationError,
 )
@@ -830,7 +831,7 @@ class UnionNode(Box):
                     flags={"convert": False},
                 ),
             )
-            self._set_value(content)
+            self._set_value_impl(content)
         except Exception as ex:
             format_and_raise(node=None, key=key, value=content, msg=str(ex), cause=ex)
 
@@ -870,6 +871,9 @@ class UnionNode(Box):
         return content
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        if self._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot set value of read-only config node")
+
         previous_content = self.__dict__["_content"]
         previous_metadata = self.__dict__["_metadata"]
         try:
-- 
2.43.0


From 51e11a6c4d449eaebb8fc104864397e9a375b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:13 +0000
Subject: [PATCH 12/40] fix: merging into read-only nodes is refused, merged
 lists have correct keys

None and interpolation sources, empty lists and expansion of None or missing
nodes bypassed the read-only flag; EXTEND and EXTEND_UNIQUE left the keys of the
added elements unchanged and failed on a None, missing or interpolated list.
---
 omegaconf/basecontainer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index c76ce22..0a4f9ce 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -316,6 +316,7 @@ class BaseContainer(Container, ABC):
         #  - None => set the destination DictConfig to None
         #  - an interpolation => set the destination DictConfig to be the same interpolation
         if src._is_none() or src._is_interpolation():
+            BaseContainer._validate_merge_writable(dest)
             dest._set_value(src._value())
             _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
             return
@@ -323,6 +324,7 @@ class BaseContainer(Container, ABC):
         dest._validate_merge(value=src)
 
         def expand(node: Container) -> None:
+            BaseContainer._validate_merge_writable(node)
             rt = node._metadata.ref_type
             val: Any
             if rt is not Any:
@@ -441,6 +443,11 @@ class BaseContainer(Container, ABC):
             if value is not None:
                 dest._set_flag(flag, value)
 
+    @staticmethod
+    def _validate_merge_writable(node: Container) -> None:
+        if node._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot merge into a read-only config")
+
     @staticmethod
     def _list_merge(
         dest: Any,
@@ -452,6 +459,9 @@ class BaseContainer(Container, ABC):
         assert isinstance(dest, ListConfig)
         assert isinstance(src, ListConfig)
 
+        if not src._is_missing():
+            BaseContainer._validate_merge_writable(dest)
+
         if src._is_none():
             dest._set_value(None)
         elif src._is_missing():
@@ -476,12 +486,18 @@ class BaseContainer(Container, ABC):
                 for item in src._iter_ex(resolve=False):
                     temp_target.append(item)
 
+            if not isinstance(dest.__dict__["_content"], list):
+                # None, missing or an interpolation: there is nothing to extend
+                list_merge_mode = ListMergeMode.REPLACE
+
             if list_merge_mode == ListMergeMode.EXTEND:
                 dest.__dict__["_content"].extend(temp_target.__dict__["_content"])
+                dest._update_keys()
             elif list_merge_mode == ListMergeMode.EXTEND_UNIQUE:
                 for entry in temp_target.__dict__["_content"]:
                     if entry not in dest.__dict__["_content"]:
                         dest.__dict__["_content"].append(entry)
+                dest._update_keys()
             else:  # REPLACE (default)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
 
-- 
2.43.0


From 19e9ea6281bfeedd4d1044ef881223d872268a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 13/40] fix: config nodes used as structured config field
 values are copied and validated

---
 omegaconf/omegaconf.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index db65eca..9af91c8 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -1108,20 +1108,22 @@ def _maybe_wrap(
     is_optional: bool,
     parent: Optional[BaseContainer],
 ) -> Node:
-    # if already a node, update key and parent and return as is.
-    # NOTE: that this mutate the input node!
     if isinstance(value, Node):
-        value._set_key(key)
-        value._set_parent(parent)
-        return value
-    else:
-        return _node_wrap(
-            ref_type=ref_type,
-            parent=parent,
-            is_optional=is_optional,
-            value=value,
-            key=key,
-        )
+        if ref_type is Any:
+            # a copy: the input node may be a part of another config.
+            value = copy.deepcopy(value)
+            value._set_key(key)
+            value._set_parent(parent)
+            return value
+        # a node is validated against the declared type like any other value.
+        value = value if isinstance(value, Container) else _get_value(value)
+    return _node_wrap(
+        ref_type=ref_type,
+        parent=parent,
+        is_optional=is_optional,
+        value=value,
+        key=key,
+    )
 
 
 def _select_one(
-- 
2.43.0


From 51ba34658c8c87d59f77a71c2106e3f3b2f7a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 14/40] fix: an int too large for a float field is a
 ValidationError

---
 omegaconf/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index c3f7ba6..462d1f5 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -340,7 +340,7 @@ class FloatNode(ValueNode):
                 return float(value)
             else:
                 raise ValueError()
-        except ValueError:
+        except (ValueError, OverflowError):
             raise ValidationError(
                 "Value '$VALUE' of type '$VALUE_TYPE' could not be converted to Float"
             )
-- 
2.43.0


From f8bd861be577cb78cb840c686c7b39c4c124c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 15/40] fix: merging a tuple is the same as merging a list

---
 omegaconf/_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 57d0ef4..3a88d3b 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -955,7 +955,6 @@ def _ensure_container(target: Any, flags: Optional[Dict[str, bool]] = None) -> A
     from omegaconf import OmegaConf
 
     if is_primitive_container(target):
-        assert isinstance(target, (list, dict))
         target = OmegaConf.create(target, flags=flags)
     elif is_structured_config(target):
         target = OmegaConf.structured(target, flags=flags)
-- 
2.43.0


From 74fb8caa97a46257922eef5bc38fcc90b2973d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 16/40] fix: merging into a DictConfig or ListConfig that is
 None

---
 omegaconf/basecontainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 0a4f9ce..2ca5333 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -337,7 +337,7 @@ class BaseContainer(Container, ABC):
             elif isinstance(node, DictConfig):
                 val = {}
             else:
-                assert False
+                val = []
 
             node._set_value(val)
 
@@ -354,7 +354,9 @@ class BaseContainer(Container, ABC):
                 ref_type=src_ref_type, object_type=src_type
             )
 
-        if (dest._is_interpolation() or dest._is_missing()) and not src._is_missing():
+        if (
+            dest._is_interpolation() or dest._is_missing() or dest._is_none()
+        ) and not src._is_missing():
             expand(dest)
 
         src_items = list(src) if not src._is_missing() else []
-- 
2.43.0


From 83c8d11627653144b5db0fbd18bef78b24591dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 17/40] fix: assigning an untyped value node to a typed field
 uses its value

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 2ca5333..48f0082 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -655,7 +655,9 @@ class BaseContainer(Container, ABC):
                 )
             )
             if should_set_value:
-                if special_value and isinstance(value, Node):
+                if isinstance(value, Node) and (
+                    special_value or isinstance(value, ValueNode)
+                ):
                     value = value._value()
                 self.__dict__["_content"][key]._set_value(value)
             elif input_is_node:
-- 
2.43.0


From 7c489d41b54e3328b375b8e8832ac5c182943107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:32 +0000
Subject: [PATCH 18/40] fix: assigning at the list index True or False stores
 an int key

---
 omegaconf/listconfig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 8c183b2..234146a 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -260,8 +260,10 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 self.__dict__["_content"] = work_copy.__dict__["_content"]
                 self._re_parent()
             else:
-                if isinstance(index, int) and -len(self) <= index < 0:
-                    index += len(self)
+                if isinstance(index, int):
+                    index = int(index)  # True and False are the indices 1 and 0
+                    if -len(self) <= index < 0:
+                        index += len(self)
                 self._set_at_index(index, value)
         except Exception as e:
             self._format_and_raise(key=index, value=value, cause=e)
-- 
2.43.0


From 9458a414065fc97daa54a2bcd3dfd0a3280f6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 19/40] fix: flags given to a node are copied, not shared with
 the caller or the source node

---
 omegaconf/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index fc88baa..8c85c36 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -64,8 +64,8 @@ class Metadata:
     resolver_cache: Dict[str, Any] = field(default_factory=lambda: defaultdict(dict))
 
     def __post_init__(self) -> None:
-        if self.flags is None:
-            self.flags = {}
+        # the flags of a node are never shared with the caller or with another node
+        self.flags = {} if self.flags is None else dict(self.flags)
 
     @property
     def type_hint(self) -> Union[Type[Any], Any]:
@@ -94,8 +94,8 @@ class ContainerMetadata(Metadata):
                     f"Unsupported value type: '{type_str(self.element_type, include_module_name=True)}'"
                 )
 
-        if self.flags is None:
-            self.flags = {}
+        # the flags of a node are never shared with the caller or with another node
+        self.flags = {} if self.flags is None else dict(self.flags)
 
 
 class Node(ABC):
-- 
2.43.0


From dc7f37fa4f70666ef4867cf47066b99d08ac321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 20/40] fix: copy.copy of a value node does not share its
 metadata

---
 omegaconf/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index 462d1f5..1203f3d 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -98,6 +98,10 @@ class ValueNode(Node):
     def __hash__(self) -> int:
         return hash(self._val)
 
+    def __copy__(self) -> Any:
+        # a default shallow copy would share the metadata (key and flags) of this node
+        return copy.deepcopy(self)
+
     def _deepcopy_impl(self, res: Any, memo: Dict[int, Any]) -> None:
         res.__dict__["_metadata"] = copy.deepcopy(self._metadata, memo=memo)
         # shallow copy for value to support non-copyable value
-- 
2.43.0


From 89b04fb1cfd92b3a59da347d9a71576c00de0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 21/40] fix: merging an interpolation into a structured or None
 field

---
 omegaconf/basecontainer.py | 4 +++-
 omegaconf/dictconfig.py    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 48f0082..8eeeaff 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -377,7 +377,9 @@ class BaseContainer(Container, ABC):
                 isinstance(dest_node, Container)
                 and dest_node._is_none()
                 and not src_node_missing
-                and not _is_none(src_node, resolve=True)
+                and not _is_none(
+                    src_node, resolve=True, throw_on_resolution_failure=False
+                )
             ):
                 expand(dest_node)
 
diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 532cd9b..cb967c5 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -219,7 +219,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         if dest._is_missing() and src._metadata.object_type not in (dict, None):
             self._validate_set(key=None, value=_get_value(src))
 
-        if src._is_missing():
+        if src._is_missing() or src._is_interpolation():
             return
 
         validation_error = (
-- 
2.43.0


From 1cf2a6c341632582016ae28d67cee355a2af1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 22/40] fix: merging a missing container or into an
 interpolation with a missing value changes nothing

---
 omegaconf/basecontainer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 8eeeaff..6b51d09 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -383,7 +383,11 @@ class BaseContainer(Container, ABC):
             ):
                 expand(dest_node)
 
-            if dest_node is not None and dest_node._is_interpolation():
+            if (
+                dest_node is not None
+                and dest_node._is_interpolation()
+                and not src_node_missing
+            ):
                 target_node = dest_node._maybe_dereference_node()
                 if isinstance(target_node, Container):
                     dest[key] = target_node
@@ -408,7 +412,8 @@ class BaseContainer(Container, ABC):
                         dest.__setitem__(key, src_node)
                 else:
                     if isinstance(src_node, BaseContainer):
-                        dest.__setitem__(key, src_node)
+                        if not src_node_missing:
+                            dest.__setitem__(key, src_node)
                     else:
                         assert isinstance(dest_node, (ValueNode, UnionNode))
                         assert isinstance(src_node, (ValueNode, UnionNode))
-- 
2.43.0


From 3985a6f5827b6ce2b14b221f442182aec63e60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 23/40] fix: merging a value over an interpolation to a
 container replaces the interpolation

---
 omegaconf/basecontainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 6b51d09..03e0587 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -386,6 +386,7 @@ class BaseContainer(Container, ABC):
             if (
                 dest_node is not None
                 and dest_node._is_interpolation()
+                and isinstance(src_node, Container)
                 and not src_node_missing
             ):
                 target_node = dest_node._maybe_dereference_node()
-- 
2.43.0


From 93874793ed130e39f5ea71420702e4366971d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 24/40] fix: a read-only config in the middle of a merge does
 not refuse the configs after it

---
 omegaconf/omegaconf.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 9af91c8..addd0ec 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -270,15 +270,13 @@ class OmegaConf:
         target = _ensure_container(target)
         assert isinstance(target, (DictConfig, ListConfig))
 
-        with flag_override(target, "readonly", False):
-            target.merge_with(
-                *configs[1:],
-                list_merge_mode=list_merge_mode,
-            )
-            turned_readonly = target._get_flag("readonly") is True
+        for config in configs[1:]:
+            with flag_override(target, "readonly", False):
+                target.merge_with(config, list_merge_mode=list_merge_mode)
+                turned_readonly = target._get_flag("readonly") is True
 
-        if turned_readonly:
-            OmegaConf.set_readonly(target, True)
+            if turned_readonly:
+                OmegaConf.set_readonly(target, True)
 
         return target
 
@@ -312,17 +310,15 @@ class OmegaConf:
         target = _ensure_container(target)
         assert isinstance(target, (DictConfig, ListConfig))
 
-        with flag_override(
-            target, ["readonly", "no_deepcopy_set_nodes"], [False, True]
-        ):
-            target.merge_with(
-                *configs[1:],
-                list_merge_mode=list_merge_mode,
-            )
-            turned_readonly = target._get_flag("readonly") is True
+        for config in configs[1:]:
+            with flag_override(
+                target, ["readonly", "no_deepcopy_set_nodes"], [False, True]
+            ):
+                target.merge_with(config, list_merge_mode=list_merge_mode)
+                turned_readonly = target._get_flag("readonly") is True
 
-        if turned_readonly:
-            OmegaConf.set_readonly(target, True)
+            if turned_readonly:
+                OmegaConf.set_readonly(target, True)
 
         return target
 
-- 
2.43.0


From 2cab37e730ecb2fa56283d8638732d882a4aa3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 25/40] fix: OmegaConf.resolve keeps strings with escaped
 interpolations

---
 omegaconf/_impl.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 49be303..7081332 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,3 +1,4 @@
+import re
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
@@ -13,6 +14,15 @@ from ._utils import (
 )
 
 
+def _escape_interpolations(value: Any) -> Any:
+    """
+    Escape the text of a resolved string so that reading it gives this text again.
+    """
+    if isinstance(value, str):
+        return re.sub(r"(\\*)\$\{", lambda m: 2 * m.group(1) + r"\${", value)
+    return value
+
+
 def _resolve_container_value(cfg: Container, key: Any) -> None:
     node = cfg._get_child(key)
     assert isinstance(node, Node)
@@ -33,7 +43,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
             if isinstance(resolved, Container) and isinstance(node, ValueNode):
                 cfg[key] = resolved
             else:
-                node._set_value(_get_value(resolved))
+                node._set_value(_escape_interpolations(_get_value(resolved)))
     else:
         _resolve(node)
 
-- 
2.43.0


From bbb34d20d8893bd52212c8d3f557f076c474a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 26/40] fix: OmegaConf.missing_keys does not read
 interpolations

---
 omegaconf/omegaconf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index addd0ec..fead6ee 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -814,10 +814,14 @@ class OmegaConf:
                 itr = _cfg
 
             for key in itr:
-                if OmegaConf.is_missing(_cfg, key):
+                # look at the node itself: an interpolation has no missing keys of
+                # its own, and reading it may fail.
+                node = _cfg._get_child(key)
+                assert isinstance(node, Node)
+                if node._is_missing():
                     missings.add(_cfg._get_full_key(key))
-                elif OmegaConf.is_config(_cfg[key]):
-                    gather(_cfg[key])
+                elif isinstance(node, Container) and not node._is_interpolation():
+                    gather(node)
 
         gather(cfg)
         return missings
-- 
2.43.0


From 30a329b255c7856966ead7ec7dd1a7a62de7fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 27/40] fix: selecting below a missing DictConfig gives None
 instead of AttributeError

---
 omegaconf/omegaconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index fead6ee..2fb25d3 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -1134,7 +1134,7 @@ def _select_one(
 
     ret_key: Union[str, int] = key
     assert isinstance(c, Container), f"Unexpected type: {c}"
-    if c._is_none():
+    if c._is_none() or c._is_missing():
         return None, ret_key
 
     if isinstance(c, DictConfig):
-- 
2.43.0


From 9a8d160bedecdc36e2d54f29d251aa7ac14acfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 28/40] fix: OmegaConf.update creates nodes below a None or
 missing DictConfig

---
 omegaconf/omegaconf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 2fb25d3..0bf1a85 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -715,9 +715,15 @@ class OmegaConf:
         root = cfg
         for i in range(len(split) - 1):
             k = split[i]
-            # if next_root is a primitive (string, int etc) replace it with an empty map
+            # if next_root is a primitive (string, int etc), None or missing,
+            # replace it with an empty map
             next_root, key_ = _select_one(root, k, throw_on_missing=False)
-            if not isinstance(next_root, Container):
+            special = isinstance(next_root, Container) and (
+                next_root._is_none() or next_root._is_missing()
+            )
+            if special and OmegaConf.is_dict(next_root):
+                next_root.merge_with({})
+            elif special or not isinstance(next_root, Container):
                 if force_add:
                     with flag_override(root, "struct", False):
                         root[key_] = {}
-- 
2.43.0


From cd440a8ce40384df982f0b809a9caa787fe581c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 29/40] fix: OmegaConf.update with a negative list index in the
 middle of the path keeps the element

---
 omegaconf/omegaconf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 0bf1a85..7215133 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -718,6 +718,8 @@ class OmegaConf:
             # if next_root is a primitive (string, int etc), None or missing,
             # replace it with an empty map
             next_root, key_ = _select_one(root, k, throw_on_missing=False)
+            if isinstance(key_, int) and -len(root) <= key_ < 0:
+                next_root = root._get_child(key_)
             special = isinstance(next_root, Container) and (
                 next_root._is_none() or next_root._is_missing()
             )
-- 
2.43.0


From e485c0d21ac47589c7c633a0613f34748700a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 30/40] fix: strings that the yaml loader reads as floats are
 dumped with quotes

---
 omegaconf/_utils.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 3a88d3b..2f963d8 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -112,12 +112,30 @@ class Marker:
 _DEFAULT_MARKER_: Any = Marker("_DEFAULT_MARKER_")
 
 
+# What the yaml loader reads as a float
+YAML_FLOAT_REGEX = re.compile(
+    """^(?:
+         [-+]?[0-9]+(?:_[0-9]+)*\\.[0-9_]*(?:[eE][-+]?[0-9]+)?
+        |[-+]?[0-9]+(?:_[0-9]+)*(?:[eE][-+]?[0-9]+)
+        |\\.[0-9]+(?:_[0-9]+)*(?:[eE][-+][0-9]+)?
+        |[-+]?[0-9]+(?:_[0-9]+)*(?::[0-5]?[0-9])+\\.[0-9_]*
+        |[-+]?\\.(?:inf|Inf|INF)
+        |\\.(?:nan|NaN|NAN))$""",
+    re.X,
+)
+
+
 class OmegaConfDumper(BaseDumper):  # type: ignore
     str_representer_added = False
 
     @staticmethod
     def str_representer(dumper: yaml.Dumper, data: str) -> yaml.ScalarNode:
-        with_quotes = yaml_is_bool(data) or is_int(data) or is_float(data)
+        with_quotes = (
+            yaml_is_bool(data)
+            or is_int(data)
+            or is_float(data)
+            or YAML_FLOAT_REGEX.match(data) is not None
+        )
         return dumper.represent_scalar(
             yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG,
             data,
@@ -156,16 +174,7 @@ def get_yaml_loader() -> Any:
     loader = OmegaConfLoader
     loader.add_implicit_resolver(
         "tag:yaml.org,2002:float",
-        re.compile(
-            """^(?:
-         [-+]?[0-9]+(?:_[0-9]+)*\\.[0-9_]*(?:[eE][-+]?[0-9]+)?
-        |[-+]?[0-9]+(?:_[0-9]+)*(?:[eE][-+]?[0-9]+)
-        |\\.[0-9]+(?:_[0-9]+)*(?:[eE][-+][0-9]+)?
-        |[-+]?[0-9]+(?:_[0-9]+)*(?::[0-5]?[0-9])+\\.[0-9_]*
-        |[-+]?\\.(?:inf|Inf|INF)
-        |\\.(?:nan|NaN|NAN))$""",
-            re.X,
-        ),
+        YAML_FLOAT_REGEX,
         list("-+0123456789."),
     )
     loader.yaml_implicit_resolvers = {
-- 
2.43.0


From 014bc99fa8d58b837682d0e7b90a504e8d5ef1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 31/40] fix: an invalid first token is a GrammarParseError like
 any other

---
 omegaconf/grammar_parser.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index 423a1ae..7f515e6 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -97,12 +97,7 @@ class OmegaConfErrorListener(ErrorListener):
         raise GrammarParseError("ANTLR error: ContextSensitivity")  # pragma: no cover
 
 
-def parse(
-    value: str, parser_rule: str = "configValue", lexer_mode: str = "DEFAULT_MODE"
-) -> Antlr4ParserRuleContext:
-    """
-    Parse interpolated string `value` (and return the parse tree).
-    """
+def _parse(value: str, parser_rule: str, lexer_mode: str) -> Antlr4ParserRuleContext:
     l_mode = getattr(OmegaConfGrammarLexer, lexer_mode)
     istream = InputStream(value)
 
@@ -136,8 +131,17 @@ def parse(
         token_stream.setTokenSource(lexer)
         parser.reset()
 
+    return getattr(parser, parser_rule)()  # type: ignore
+
+
+def parse(
+    value: str, parser_rule: str = "configValue", lexer_mode: str = "DEFAULT_MODE"
+) -> Antlr4ParserRuleContext:
+    """
+    Parse interpolated string `value` (and return the parse tree).
+    """
     try:
-        return getattr(parser, parser_rule)()  # type: ignore
+        return _parse(value, parser_rule, lexer_mode)
     except Exception as exc:
         if type(exc) is Exception and str(exc) == "Empty Stack":
             # This exception is raised by antlr when trying to pop a mode while
-- 
2.43.0


From 05ad2d4ba5fc63dfed94f76a4b86570bd24915a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 32/40] fix: oc.decode of a string made only of whitespace

---
 omegaconf/grammar_visitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omegaconf/grammar_visitor.py b/omegaconf/grammar_visitor.py
index e8679fb..49b054d 100644
--- a/omegaconf/grammar_visitor.py
+++ b/omegaconf/grammar_visitor.py
@@ -329,9 +329,9 @@ class GrammarVisitor(OmegaConfGrammarParserVisitor):
                 return symbol.text.lower() == "true"
             elif symbol.type == OmegaConfGrammarLexer.ESC:
                 return self._unescape([child])
-            elif symbol.type == OmegaConfGrammarLexer.WS:  # pragma: no cover
-                # A single WS should have been "consumed" by another token.
-                raise AssertionError("WS should never be reached")
+            elif symbol.type == OmegaConfGrammarLexer.WS:
+                # A string made only of whitespace, parsed as a single element.
+                return symbol.text
             assert False, symbol.type
         # Concatenation of multiple items ==> un-escape the concatenation.
         return self._unescape(list(ctx.getChildren()))
-- 
2.43.0


From 83953bc8c1e52f7863b515c62a19c26a71f55811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 33/40] fix: malformed interpolations with an empty resolver
 name or a newline are refused when the config is created

---
 omegaconf/grammar_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index 7f515e6..c8147ab 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -24,13 +24,14 @@ _config_key = r"[$\w]+"  # foo, $0, $bar, $foo_$bar123$
 _key_maybe_brackets = f"{_config_key}|\\[{_config_key}\\]"  # foo, [foo], [$bar]
 _node_access = f"\\.{_key_maybe_brackets}"  # .foo, [foo], [$bar]
 _node_path = f"(\\.)*({_key_maybe_brackets})({_node_access})*"  # [foo].bar, .foo[bar]
-_node_inter = f"\\${{\\s*{_node_path}\\s*}}"  # node interpolation ${foo.bar}
+_ws = r"[ \t]*"  # optional whitespaces
+_node_inter = f"\\${{{_ws}{_node_path}{_ws}}}"  # node interpolation ${foo.bar}
 _id = "[a-zA-Z_][\\w\\-]*"  # foo, foo_bar, foo-bar, abc123
-_resolver_name = f"({_id}(\\.{_id})*)?"  # foo, ns.bar3, ns_1.ns_2.b0z
+_resolver_name = f"{_id}(\\.{_id})*"  # foo, ns.bar3, ns_1.ns_2.b0z
 _arg = r"[a-zA-Z_0-9/\-\+.$%*@?|]+"  # string representing a resolver argument
-_args = f"{_arg}(\\s*,\\s*{_arg})*"  # list of resolver arguments  # noqa: E231
+_args = f"{_arg}({_ws},{_ws}{_arg})*"  # list of resolver arguments  # noqa: E231
 _resolver_inter = (
-    f"\\${{\\s*{_resolver_name}\\s*:\\s*{_args}?\\s*}}"  # ${foo:bar}  # noqa: E231
+    f"\\${{{_ws}{_resolver_name}{_ws}:{_ws}{_args}?{_ws}}}"  # ${foo:bar}  # noqa: E231
 )
 _inter = f"({_node_inter}|{_resolver_inter})"  # any kind of interpolation
 _outer = "([^$]|\\$(?!{))+"  # any character except $ (unless not followed by {)
-- 
2.43.0


From 2b05023c325935bec7c7d87f7cf68a083a43af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 34/40] fix: copying a config does not detach its nodes from
 their parent while other threads read it

---
 omegaconf/base.py       | 11 ++++-------
 omegaconf/dictconfig.py | 13 +++++--------
 omegaconf/listconfig.py | 13 +++++--------
 3 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 8c85c36..588d7ac 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -936,19 +936,16 @@ class UnionNode(Box):
 
     def __deepcopy__(self, memo: Dict[int, Any]) -> "UnionNode":
         res = object.__new__(type(self))
+        # nodes that copy their parent get the copy
+        memo[id(self)] = res
         for key, value in self.__dict__.items():
             if key not in ("_content", "_parent"):
                 res.__dict__[key] = copy.deepcopy(value, memo=memo)
 
         src_content = self.__dict__["_content"]
         if isinstance(src_content, Node):
-            old_parent = src_content.__dict__["_parent"]
-            try:
-                src_content.__dict__["_parent"] = None
-                content_copy = copy.deepcopy(src_content, memo=memo)
-                content_copy.__dict__["_parent"] = res
-            finally:
-                src_content.__dict__["_parent"] = old_parent
+            content_copy = copy.deepcopy(src_content, memo=memo)
+            content_copy.__dict__["_parent"] = res
         else:
             # None and strings can be assigned as is
             content_copy = src_content
diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index cb967c5..ddaeba1 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -111,6 +111,8 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
 
     def __deepcopy__(self, memo: Dict[int, Any]) -> "DictConfig":
         res = DictConfig(None)
+        # nodes that copy their parent get the copy
+        memo[id(self)] = res
         res.__dict__["_metadata"] = copy.deepcopy(self.__dict__["_metadata"], memo=memo)
         res.__dict__["_flags_cache"] = copy.deepcopy(
             self.__dict__["_flags_cache"], memo=memo
@@ -120,14 +122,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         if isinstance(src_content, dict):
             content_copy = {}
             for k, v in src_content.items():
-                old_parent = v.__dict__["_parent"]
-                try:
-                    v.__dict__["_parent"] = None
-                    vc = copy.deepcopy(v, memo=memo)
-                    vc.__dict__["_parent"] = res
-                    content_copy[k] = vc
-                finally:
-                    v.__dict__["_parent"] = old_parent
+                vc = copy.deepcopy(v, memo=memo)
+                vc.__dict__["_parent"] = res
+                content_copy[k] = vc
         else:
             # None and strings can be assigned as is
             content_copy = src_content
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 234146a..701ac26 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -124,6 +124,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def __deepcopy__(self, memo: Dict[int, Any]) -> "ListConfig":
         res = ListConfig(None)
+        # nodes that copy their parent get the copy
+        memo[id(self)] = res
         res.__dict__["_metadata"] = copy.deepcopy(self.__dict__["_metadata"], memo=memo)
         res.__dict__["_flags_cache"] = copy.deepcopy(
             self.__dict__["_flags_cache"], memo=memo
@@ -133,14 +135,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         if isinstance(src_content, list):
             content_copy: List[Optional[Node]] = []
             for v in src_content:
-                old_parent = v.__dict__["_parent"]
-                try:
-                    v.__dict__["_parent"] = None
-                    vc = copy.deepcopy(v, memo=memo)
-                    vc.__dict__["_parent"] = res
-                    content_copy.append(vc)
-                finally:
-                    v.__dict__["_parent"] = old_parent
+                vc = copy.deepcopy(v, memo=memo)
+                vc.__dict__["_parent"] = res
+                content_copy.append(vc)
         else:
             # None and strings can be assigned as is
             content_copy = src_content
-- 
2.43.0


From 9def5408cc6f6b038908c97aba99265682af466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 35/40] fix: copying a config while other threads fill its flag
 or resolver caches does not fail

---
 omegaconf/base.py       | 17 ++++++++++++++++-
 omegaconf/dictconfig.py |  6 +++---
 omegaconf/listconfig.py |  6 +++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 588d7ac..314b696 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -67,6 +67,18 @@ class Metadata:
         # the flags of a node are never shared with the caller or with another node
         self.flags = {} if self.flags is None else dict(self.flags)
 
+    def __deepcopy__(self, memo: Dict[int, Any]) -> "Metadata":
+        res: Metadata = object.__new__(type(self))
+        memo[id(self)] = res
+        for key, value in self.__dict__.items():
+            if key == "resolver_cache":
+                # other threads may be adding to the cache
+                value = defaultdict(
+                    dict, {name: dict(cache) for name, cache in list(value.items())}
+                )
+            res.__dict__[key] = copy.deepcopy(value, memo=memo)
+        return res
+
     @property
     def type_hint(self) -> Union[Type[Any], Any]:
         """Compute `type_hint` from `self.optional` and `self.ref_type`"""
@@ -939,8 +951,11 @@ class UnionNode(Box):
         # nodes that copy their parent get the copy
         memo[id(self)] = res
         for key, value in self.__dict__.items():
-            if key not in ("_content", "_parent"):
+            if key not in ("_content", "_parent", "_flags_cache"):
                 res.__dict__[key] = copy.deepcopy(value, memo=memo)
+        # other threads may be adding to the cache
+        cache = self.__dict__["_flags_cache"]
+        res.__dict__["_flags_cache"] = None if cache is None else dict(cache)
 
         src_content = self.__dict__["_content"]
         if isinstance(src_content, Node):
diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index ddaeba1..23d0867 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -114,9 +114,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         # nodes that copy their parent get the copy
         memo[id(self)] = res
         res.__dict__["_metadata"] = copy.deepcopy(self.__dict__["_metadata"], memo=memo)
-        res.__dict__["_flags_cache"] = copy.deepcopy(
-            self.__dict__["_flags_cache"], memo=memo
-        )
+        # other threads may be adding to the cache
+        cache = self.__dict__["_flags_cache"]
+        res.__dict__["_flags_cache"] = None if cache is None else dict(cache)
 
         src_content = self.__dict__["_content"]
         if isinstance(src_content, dict):
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 701ac26..ed386cc 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -127,9 +127,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         # nodes that copy their parent get the copy
         memo[id(self)] = res
         res.__dict__["_metadata"] = copy.deepcopy(self.__dict__["_metadata"], memo=memo)
-        res.__dict__["_flags_cache"] = copy.deepcopy(
-            self.__dict__["_flags_cache"], memo=memo
-        )
+        # other threads may be adding to the cache
+        cache = self.__dict__["_flags_cache"]
+        res.__dict__["_flags_cache"] = None if cache is None else dict(cache)
 
         src_content = self.__dict__["_content"]
         if isinstance(src_content, list):
-- 
2.43.0


From f8429cb4abeca7f58cd34194643304551a389f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 36/40] fix: oc.deprecated of a missing value is an error
 instead of the text '???'

---
 omegaconf/resolvers/oc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/resolvers/oc/__init__.py b/omegaconf/resolvers/oc/__init__.py
index c177ab4..228f834 100644
--- a/omegaconf/resolvers/oc/__init__.py
+++ b/omegaconf/resolvers/oc/__init__.py
@@ -78,7 +78,9 @@ def deprecated(
         )
 
     full_key = _node_._get_full_key(key=None)
-    target_node = select_node(_parent_, key, absolute_key=True)
+    target_node = select_node(
+        _parent_, key, absolute_key=True, throw_on_missing=True
+    )
     if target_node is None:
         raise ConfigKeyError(
             f"In oc.deprecated resolver at '{full_key}': Key not found: '{key}'"
-- 
2.43.0


From 7f4152b22c53adf84597d144596f39663803c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 37/40] fix: equality of missing lists, of standalone
 interpolations and of interpolations that cannot be resolved

---
 omegaconf/basecontainer.py | 12 ++++++++++++
 omegaconf/dictconfig.py    |  6 ++++--
 omegaconf/listconfig.py    |  4 ++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 03e0587..9b49bb1 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -702,6 +702,15 @@ class BaseContainer(Container, ABC):
             self._format_and_raise(key=key, value=val, cause=e)
         self.__dict__["_content"][key] = wrapped
 
+    @staticmethod
+    def _interpolation_eq(c1: Container, c2: Container) -> bool:
+        """Compare containers at least one of which is an interpolation"""
+        dc1 = c1._maybe_dereference_node()
+        dc2 = c2._maybe_dereference_node()
+        if dc1 is None or dc2 is None:
+            return bool(c1._value() == c2._value())
+        return bool(_get_value(dc1) == _get_value(dc2))
+
     @staticmethod
     def _item_eq(
         c1: Container,
@@ -750,6 +759,9 @@ class BaseContainer(Container, ABC):
             assert isinstance(ret, bool)
             return ret
         else:
+            if dv1 is None or dv2 is None:
+                # an interpolation that cannot be resolved is not equal to a value
+                return False
             dv1 = _get_value(dv1)
             dv2 = _get_value(dv2)
             ret = dv1 == dv2
diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 23d0867..8104aa3 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -709,10 +709,12 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
 
         assert isinstance(d1, DictConfig)
         assert isinstance(d2, DictConfig)
-        if len(d1) != len(d2):
-            return False
         if d1._is_missing() or d2._is_missing():
             return d1._is_missing() is d2._is_missing()
+        if d1._is_interpolation() or d2._is_interpolation():
+            return BaseContainer._interpolation_eq(d1, d2)
+        if len(d1) != len(d2):
+            return False
 
         for k, v in d1.items_ex(resolve=False):
             if k not in d2.__dict__["_content"]:
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index ed386cc..9d7adca 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -658,6 +658,10 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
         assert isinstance(l1, ListConfig)
         assert isinstance(l2, ListConfig)
+        if l1._is_missing() or l2._is_missing():
+            return l1._is_missing() is l2._is_missing()
+        if l1._is_interpolation() or l2._is_interpolation():
+            return BaseContainer._interpolation_eq(l1, l2)
         if len(l1) != len(l2):
             return False
         for i in range(len(l1)):
-- 
2.43.0


From 2fa23e572926ed48a23006f570c5288eb59915c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 38/40] fix: defaults given by attrs factories are used when
 creating from an attrs class

---
 omegaconf/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 2f963d8..08d179c 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -355,7 +355,10 @@ def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, A
             value = getattr(obj, name)
         else:
             value = attrib.default
-            if value == attr.NOTHING:
+            if isinstance(value, attr.Factory):  # type: ignore
+                # a factory which takes the instance cannot be evaluated for a class
+                value = MISSING if value.takes_self else value.factory()
+            elif value == attr.NOTHING:
                 value = MISSING
         if is_union_annotation(type_) and not is_supported_union_annotation(type_):
             e = ConfigValueError(
-- 
2.43.0


From 06fdd1d7693b9dc61b236702fd57e42023d087ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 39/40] fix: a lone '=' in YAML is a string

---
 omegaconf/_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 08d179c..09ed219 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -186,6 +186,11 @@ def get_yaml_loader() -> Any:
         for key, resolvers in loader.yaml_implicit_resolvers.items()
     }
 
+    # a lone '=' is a string (PyYAML resolves it to a type that it cannot construct)
+    loader.add_constructor(
+        "tag:yaml.org,2002:value",
+        lambda loader, node: loader.construct_scalar(node),
+    )
     loader.add_constructor(
         "tag:yaml.org,2002:python/object/apply:pathlib.Path",
         lambda loader, node: pathlib.Path(*loader.construct_sequence(node)),
-- 
2.43.0


From 9f138da217870a069659759219edde54d0596914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 40/40] fix: merging a config without values changed the types
 of a read-only config

Merging a structured config that has no values to merge (no fields, or all of
them missing) into a read-only DictConfig replaced the type of that DictConfig
without an error. Same for the element type of a read-only ListConfig and a
missing typed list.
---
 omegaconf/basecontainer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 9b49bb1..b32587b 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -444,6 +444,8 @@ class BaseContainer(Container, ABC):
                 else:
                     dest[key] = src._get_node(key)
 
+        if _types_would_change(dest, ref_type=src_ref_type, object_type=src_type):
+            BaseContainer._validate_merge_writable(dest)
         _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
 
         # explicit flags on the source config are replacing the flag values in the destination
@@ -476,7 +478,11 @@ class BaseContainer(Container, ABC):
             dest._set_value(None)
         elif src._is_missing():
             # do not change dest if src is MISSING.
-            if dest._metadata.element_type is Any:
+            if (
+                dest._metadata.element_type is Any
+                and src._metadata.element_type is not Any
+            ):
+                BaseContainer._validate_merge_writable(dest)
                 dest._metadata.element_type = src._metadata.element_type
         elif src._is_interpolation():
             dest._set_value(src._value())
@@ -886,6 +892,16 @@ def _create_structured_with_missing_fields(
     return cfg
 
 
+def _types_would_change(
+    node: Node, ref_type: Any, object_type: Optional[type]
+) -> bool:
+    """True if `_update_types` would modify the types of the node."""
+    if object_type is not None and not is_primitive_dict(object_type):
+        if node._metadata.object_type is not object_type:
+            return True
+    return node._metadata.ref_type is Any and ref_type is not Any
+
+
 def _update_types(node: Node, ref_type: Any, object_type: Optional[type]) -> None:
     if object_type is not None and not is_primitive_dict(object_type):
         node._metadata.object_type = object_type
-- 
2.43.0

