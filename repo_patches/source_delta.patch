From 624f9aae81320258b31653b6e1a17ba66ad03e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:53 +0000
Subject: [PATCH 01/10] fix: fold constant Num arithmetic in floats so
 oversized results do not crash the compiler

Integral constants were folded as Python ints, so 10 ** 400 or 1e200 * 1e200
raised OverflowError when the result was converted back to a float.
---
 sonolus/script/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sonolus/script/num.py b/sonolus/script/num.py
index e4ce11f..40a9083 100644
--- a/sonolus/script/num.py
+++ b/sonolus/script/num.py
@@ -329,7 +329,7 @@ class _Num(Value, metaclass=_NumMeta):
             a_py = a._as_py_or_none()
             b_py = b._as_py_or_none()
             if a_py is not None and b_py is not None:
-                return Num(a_py + b_py)
+                return Num(float(a_py) + b_py)
             if a_py == 0:
                 return b
             if b_py == 0:
@@ -344,7 +344,7 @@ class _Num(Value, metaclass=_NumMeta):
             a_py = a._as_py_or_none()
             b_py = b._as_py_or_none()
             if a_py is not None and b_py is not None:
-                return Num(a_py - b_py)
+                return Num(float(a_py) - b_py)
             if a_py == 0:
                 return -b
             if b_py == 0:
@@ -359,7 +359,7 @@ class _Num(Value, metaclass=_NumMeta):
             a_py = a._as_py_or_none()
             b_py = b._as_py_or_none()
             if a_py is not None and b_py is not None:
-                return Num(a_py * b_py)
+                return Num(float(a_py) * b_py)
             if a_py == 0 or b_py == 0:
                 return Num(0)
             if a_py == 1:
@@ -425,7 +425,7 @@ class _Num(Value, metaclass=_NumMeta):
             b_py = b._as_py_or_none()
             if a_py is not None and b_py is not None:
                 try:
-                    result = a_py**b_py
+                    result = float(a_py) ** b_py
                 except (OverflowError, ZeroDivisionError):
                     # OverflowError: result too large; ZeroDivisionError: 0 ** negative.
                     # Defer to Op.Power so the runtime yields its IEEE value instead of
-- 
2.43.0


From 18c72c4d377d41b0d7ac82381df4cf70aff64d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:31 +0000
Subject: [PATCH 02/10] fix: emit the export when a component of an exported
 archetype field is assigned

_ExportBackingValue.write returned the ExportValue statement, which its caller
discards, so 'self.exported_vec.x = 1' compiled to nothing.
---
 sonolus/script/archetype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 2fa94a7..70c3bd3 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -8,7 +8,7 @@ from enum import Enum, IntEnum, StrEnum
 from types import FunctionType
 from typing import Annotated, Any, ClassVar, NamedTuple, Self, TypedDict, get_origin
 
-from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr, IRStmt
+from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr
 from sonolus.backend.mode import Mode
 from sonolus.backend.ops import Op
 from sonolus.script.bucket import Bucket, Judgment
@@ -55,8 +55,8 @@ class _ExportBackingValue(BackingValue):
     def read(self) -> IRExpr:
         raise NotImplementedError("Exported fields are write-only")
 
-    def write(self, value: IRExpr) -> IRStmt:
-        return IRInstr(Op.ExportValue, [self.index, value])
+    def write(self, value: IRExpr) -> None:
+        ctx().add_statements(IRInstr(Op.ExportValue, [self.index, value]))
 
 
 class _ArchetypeField(SonolusDescriptor):
-- 
2.43.0


From af4bf9aa0cb05df2b59d10cbc0af71a35e61b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:19 +0000
Subject: [PATCH 03/10] fix: compile the else clause of a for loop over a tuple

---
 sonolus/script/internal/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index b668946..144fcb3 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -767,6 +767,10 @@ class Visitor(ast.NodeVisitor):
                 continue_ctxs = [*self.loop_head_ctxs.pop(), ctx()]
                 break_ctxs.extend(self.break_ctxs.pop())
                 set_ctx(Context.meet(continue_ctxs))
+            for stmt in node.orelse:
+                if not ctx().live:
+                    break
+                self.visit(stmt)
             if break_ctxs:
                 set_ctx(Context.meet([*break_ctxs, ctx()]))
             return
-- 
2.43.0


From 746d54fd4e76cec290fd6fd316fc0802c119c84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 04/10] fix: apply the conditions of a generator expression
 over a tuple

---
 sonolus/script/internal/visitor.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 144fcb3..df11932 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -568,7 +568,21 @@ class Visitor(ast.NodeVisitor):
             for value in tuple_iter(iterable):
                 set_ctx(ctx().branch(None))
                 self.handle_assign(generator.target, validate_value(value))
-                self.construct_genexpr(others, elt)
+                skip_ctxs = []
+                for if_expr in generator.ifs:
+                    test = self.convert_to_boolean_num(if_expr, self.visit(if_expr))
+                    if test._is_py_():
+                        if not test._as_py_():
+                            break
+                    else:
+                        ctx().test = test.ir()
+                        if_then_ctx = ctx().branch(None)
+                        skip_ctxs.append(ctx().branch(0))
+                        set_ctx(if_then_ctx)
+                else:
+                    self.construct_genexpr(others, elt)
+                if skip_ctxs:
+                    set_ctx(Context.meet([ctx(), *skip_ctxs]))
         else:
             if initial_iterator is not None:
                 iterator = initial_iterator
-- 
2.43.0


From 91fe5f17a10b50d977ca796cfff00b4615d658e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:23 +0000
Subject: [PATCH 05/10] fix: do not repeat a stream's last key when it lies at
 the previous frame's time

---
 sonolus/script/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/stream.py b/sonolus/script/stream.py
index 080fc9f..70f63cb 100644
--- a/sonolus/script/stream.py
+++ b/sonolus/script/stream.py
@@ -364,7 +364,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_items_from_desc(self, start: int | float, /) -> SonolusIterator[tuple[int | float, T]]:
         """Iterate over the items in the stream in descending order starting from the given key.
@@ -410,7 +410,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscKeyIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscKeyIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_keys_from_desc(self, start: int | float, /) -> SonolusIterator[int | float]:
         """Iterate over the keys in the stream in descending order starting from the given key.
@@ -456,7 +456,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscValueIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscValueIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_values_from_desc(self, start: int | float, /) -> SonolusIterator[T]:
         """Iterate over the values in the stream in descending order starting from the given key.
-- 
2.43.0


From 827bdd000b055f9091755088eca17f839b9dc523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 06/10] fix: bool() of a run-time number crashed the compiler

---
 sonolus/script/internal/builtin_impls.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 401ad95..8824959 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -388,8 +388,10 @@ class _Bool:
 
     @meta_fn
     def __call__(self, value=False):
-        # Relies on the compiler to perform the conversion in a boolean context
-        if validate_value(value):  # noqa: SIM103
+        value = validate_value(value)
+        if _is_num(value) and not value._is_py_():
+            return value != 0
+        if value:  # noqa: SIM103
             return True
         else:
             return False
-- 
2.43.0


From 26c9c56b619a578803847932d4967fcb0cc19fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:42 +0000
Subject: [PATCH 07/10] fix: honour the default of max and min over an array

---
 sonolus/script/internal/builtin_impls.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 8824959..68cce59 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -142,6 +142,8 @@ def _max(*args, default=_empty, key=None):
     elif len(args) == 1:
         (iterable,) = args
         if isinstance(iterable, ArrayLike):
+            if default is not _empty:
+                return compile_and_call(_max_array_or_default, iterable, default, key=key)
             return compile_and_call(iterable._max_, key=key)
         elif has_tuple_iter(iterable) and all(_is_num(v) for v in tuple_iter(iterable)):
             t = tuple_iter(iterable)
@@ -202,6 +204,12 @@ def _max2_generic(a, b, key=_identity):
         return a
 
 
+def _max_array_or_default(iterable, default, key):
+    if len(iterable) == 0:
+        return default
+    return iterable._max_(key=key)
+
+
 def _max_num_iterator(iterable, default, key):
     iterator = iterable.__iter__()  # noqa: PLC2801
     initial = iterator.next()
@@ -238,6 +246,8 @@ def _min(*args, default=_empty, key=None):
     elif len(args) == 1:
         (iterable,) = args
         if isinstance(iterable, ArrayLike):
+            if default is not _empty:
+                return compile_and_call(_min_array_or_default, iterable, default, key=key)
             return compile_and_call(iterable._min_, key=key)
         elif has_tuple_iter(iterable) and all(_is_num(v) for v in tuple_iter(iterable)):
             t = tuple_iter(iterable)
@@ -298,6 +308,12 @@ def _min2_generic(a, b, key=_identity):
         return a
 
 
+def _min_array_or_default(iterable, default, key):
+    if len(iterable) == 0:
+        return default
+    return iterable._min_(key=key)
+
+
 def _min_num_iterator(iterable, default, key):
     iterator = iterable.__iter__()  # noqa: PLC2801
     initial = iterator.next()
-- 
2.43.0


From fa2dcc2e6be7a43d7de284fc53691e2aa1dec333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:31 +0000
Subject: [PATCH 08/10] fix: zip does not advance the iterators after an
 exhausted one

---
 sonolus/script/iterator.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/sonolus/script/iterator.py b/sonolus/script/iterator.py
index a6fd17a..ec6ffd6 100644
--- a/sonolus/script/iterator.py
+++ b/sonolus/script/iterator.py
@@ -73,24 +73,15 @@ class _Zipper[T](Record, SonolusIterator):
         iterators.append(v)
         return tuple(iterators)
 
-    @meta_fn
-    def _get_next_values(self) -> tuple[Any, ...]:
-        from sonolus.script.internal.visitor import compile_and_call
-
-        return tuple(compile_and_call(iterator.next) for iterator in self._get_iterators())
-
-    @meta_fn
-    def _values_to_tuple(self, values: tuple[Any, ...]) -> tuple[Any, ...]:
-        from sonolus.script.internal.visitor import compile_and_call
-
-        return tuple(compile_and_call(value.get_unsafe) for value in values)
-
     def next(self) -> Maybe[tuple[Any, ...]]:
-        values = self._get_next_values()
-        for value in values:
+        # As with Python's zip, iterators after the first exhausted one are not advanced
+        values = ()
+        for iterator in self._get_iterators():
+            value = iterator.next()
             if value.is_nothing:
                 return Nothing
-        return Some(self._values_to_tuple(values))
+            values += (value.get_unsafe(),)
+        return Some(values)
 
 
 class _EmptyIterator(Record, SonolusIterator):
-- 
2.43.0


From 40fd6df1fa8b2ce2059641566499b12e8a43d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 09/10] fix: rebuild from the loaded resources, not from the
 previous build's collection

Building applies converters to the loaded levels and links items in place. The dev
server reused that collection for the next rebuild, so a fallback converter was applied
again on each rebuild and levels removed from the project stayed.
---
 sonolus/build/dev_server.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index 8f2ad69..c79f7a3 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -14,6 +14,7 @@ import sys
 import textwrap
 import threading
 import traceback
+from copy import deepcopy
 from dataclasses import dataclass
 from pathlib import Path
 from time import perf_counter, time
@@ -98,7 +99,8 @@ class ServerState:
     config: BuildConfig
     project_state: ProjectContextState
     collection: Collection
-    last_build_time: float
+    resources: Collection | None = None
+    resources_load_time: float = 0.0
 
 
 class Command(Protocol):
@@ -128,11 +130,20 @@ class RebuildCommand:
         try:
             start_time = perf_counter()
 
-            if path_was_modified_after(server_state.project.resources, server_state.last_build_time):
-                server_state.collection = load_resources_files_to_collection(server_state.project.resources)
+            project = project_module.project
+            if (
+                server_state.resources is None
+                or project.resources != server_state.project.resources
+                or path_was_modified_after(project.resources, server_state.resources_load_time)
+            ):
+                load_time = time()
+                server_state.resources = load_resources_files_to_collection(project.resources)
+                server_state.resources_load_time = load_time
 
             server_state.project_state = ProjectContextState.from_build_config(server_state.config)
-            server_state.project = project_module.project
+            server_state.project = project
+            # Building converts and links the loaded items in place, so the loaded resources are kept as they were
+            server_state.collection = deepcopy(server_state.resources)
             build_project_to_existing_collection(
                 server_state.project,
                 server_state.collection,
@@ -140,7 +151,6 @@ class RebuildCommand:
                 project_state=server_state.project_state,
             )
             write_collection(server_state.collection, server_state.build_dir, clear=False)
-            server_state.last_build_time = time()
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
         except CompilationError:
@@ -330,7 +340,6 @@ def run_server(
                 config=config,
                 project_state=project_state,
                 collection=collection,
-                last_build_time=time(),
             )
 
             threading.Thread(target=httpd.serve_forever, daemon=True).start()
-- 
2.43.0


From b361b5fa1dc7d97f7bcd90ec0c7a42a148aa28ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:54 +0000
Subject: [PATCH 10/10] fix: keep dots in the names of items loaded from a
 collection

Items are written under their own name, but loading took the name up to the last dot,
so a.one and a.two both became a.
---
 sonolus/build/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 41ad349..3a253a5 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -220,7 +220,7 @@ class Collection:
             path = Path(zip_entry.filename)
             if path.parts[0] == "sonolus":
                 path = Path(*path.parts[1:])
-            item_name = path.stem
+            item_name = path.name
 
             if self._is_valid_category(dir_name):
                 self.categories[dir_name][item_name] = item_details
-- 
2.43.0

