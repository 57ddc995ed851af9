From ea86a105d64af2c8e68b2390b09a5a3265a7f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 01/72] fix: DirEntry.modify_time could not be set (packed into
 a temporary copy)

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c470ed4..5d34889 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -635,7 +635,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
-        struct.pack_into(str('<Q'), bytes(self.data), 108, value)
+        struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
     @property
-- 
2.43.0


From 9c895207a5e653a9dac705f12441ec6802ea5bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 02/72] fix: growing a stream with truncate exposed stale bytes
 instead of zeros

---
 src/aaf2/cfb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 5d34889..76b2d17 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -329,7 +329,11 @@ class Stream(object):
 
         # grown the stream
         if size > current_byte_size:
-            self.allocate(size)
+            # seeking past the end pads with zeros, reused
+            # sectors could otherwise expose stale data
+            pos = self.pos
+            self.seek(size)
+            self.pos = pos
             return
 
         # shrink to mini stream
-- 
2.43.0


From e94f035335d8fdd5ba68088357954927cd675e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 03/72] fix: moving a storage inside itself orphaned its whole
 subtree

---
 src/aaf2/cfb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 76b2d17..ddcbabe 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2131,6 +2131,11 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        src_path = src.path() if isinstance(src, DirEntry) else src
+        src_parts = [p for p in src_path.split('/') if p]
+        if split_path[:len(src_parts)] == src_parts:
+            raise ValueError("cannot move %s inside itself: %s" % (src, dst))
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From a339a9d05e685b2168e029a5a0bae7db63886291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 04/72] fix: entry names that are too long or collide are
 rejected before the directory is modified

Names that differ only by case (or only compare equal in the directory tree)
were accepted, a later remove of one of them failed or removed the wrong tree
node. A too long name leaked a directory id, or lost the entry being moved.
---
 src/aaf2/cfb.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index ddcbabe..7a0ef07 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -730,6 +730,25 @@ class DirEntry(object):
     def child(self):
         return self.storage.read_dir_entry(self.child_id, self)
 
+    def check_child_name(self, name, ignore=None):
+        """
+        Raises ``ValueError`` if a child called name cannot be added. Names of
+        siblings are compared not case sensitive, just like the tree they are stored in.
+        """
+        if not name or len(name.encode("utf-16le")) > 64:
+            raise ValueError("invalid entry name: %s" % name)
+
+        max_dirs_entries = self.storage.dir_sector_count * (self.storage.sector_size // 128)
+        node = self.child()
+        count = 0
+        while node is not None and count < max_dirs_entries:
+            if node == name:
+                if node is ignore:
+                    return
+                raise ValueError("%s already exists as %s" % (name, node.name))
+            node = node[1 if node < name else 0]
+            count += 1
+
     def add_child(self, entry):
         entry.parent = self
         entry.color = 'black'
@@ -1850,6 +1869,8 @@ class CompoundFileBinary(object):
         if not root.type in ('storage', 'root storage'):
             raise ValueError("can not add entry to non storage type")
 
+        root.check_child_name(basename)
+
         dir_id = self.next_free_dir_id()
         logging.debug("next dir id %d" % dir_id)
 
@@ -2136,6 +2157,8 @@ class CompoundFileBinary(object):
         if split_path[:len(src_parts)] == src_parts:
             raise ValueError("cannot move %s inside itself: %s" % (src, dst))
 
+        dst_entry.check_child_name(dst_basename, ignore=src_entry)
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From 98dad7cefe29d4263f4bb4dfc5008208ef43d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 05/72] fix: removing an entry picked the wrong sibling when
 rebalancing the directory tree

The sibling of the current node was looked up with the search direction of the
next step, so black heights diverged and the tree degraded on every removal.
---
 src/aaf2/cfb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 7a0ef07..0dbdb7c 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -932,7 +932,7 @@ class DirEntry(object):
                     assert is_parent_of(parent, node)
 
                 elif is_not_red(node[1 - direction]):
-                    sibling = parent[1 - direction]
+                    sibling = parent[1 - last]
                     if sibling is not None:
 
                         if is_not_red(sibling[1 - last]) and is_not_red(sibling[last]):
@@ -970,7 +970,7 @@ class DirEntry(object):
             raise CompoundFileBinaryError("max dir entries limit reached")
 
         # entry parent could have changed during rebalance
-        max_search_depth = 4 # grand_parent -> parent -> node
+        max_search_depth = 6 # grand_parent -> parent -> node, and two rotations
         entry_parent = find_entry_parent(entry_grand_parent, entry, max_search_depth)
 
         if entry_parent[0] is entry:
-- 
2.43.0


From b5200c966e50b8ddfac61ffdcc627845ef32a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 06/72] fix: additions to strong reference vectors and sets are
 validated before anything changes

A failed extend, insert or assignment left the property half updated; an
object could be inserted in a second vector while still attached to another.
---
 src/aaf2/properties.py | 66 +++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a58dd70..87bbff9 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -403,6 +403,27 @@ class StrongRefProperty(Property):
         self.objectref = weakref.ref(obj)
 
 
+def check_new_refs(prop, ref_classdef, values, current=()):
+    """
+    Raises if one of values cannot be referenced by prop. Objects already
+    referenced by prop can be passed as current, they are allowed to be attached.
+    """
+    seen = set()
+    for obj in values:
+        if not ref_classdef.isinstance(obj.classdef):
+            raise TypeError("Invalid Value, expected {}, got {}".format(ref_classdef, obj.classdef))
+
+        if obj.root is not prop.parent.root:
+            raise AAFAttachError("Object is from a different root")
+
+        if id(obj) in seen:
+            raise AAFAttachError("Object can only be referenced once")
+        seen.add(id(obj))
+
+        if obj.dir and not any(obj is item for item in current):
+            raise AAFAttachError("Object already attached")
+
+
 class StrongRefVectorProperty(Property):
     __slots__ = ('references', 'next_free_key', 'last_free_key','objects', '_index_name')
 
@@ -546,11 +567,7 @@ class StrongRefVectorProperty(Property):
         if index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
-        if value.root is not self.parent.root:
-            raise AAFAttachError("Object is from a different root")
-
-        if value.dir:
-            raise AAFAttachError("Object already attached")
+        check_new_refs(self, self.ref_classdef, [value])
 
         obj = self.get(index, None)
         if obj:
@@ -604,7 +621,13 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
-        assert self.ref_classdef.isinstance(value.classdef)
+        check_new_refs(self, self.ref_classdef, [value])
+        index_name = self.index_name # sets self.data
+
+        # same index rules as list.insert
+        if index < 0:
+            index = max(0, len(self) + index)
+        index = min(index, len(self))
 
         self.references.insert(index, self.next_free_key)
 
@@ -622,21 +645,14 @@ class StrongRefVectorProperty(Property):
             self.objects = weakref.WeakValueDictionary(objects)
         else:
             self.objects = objects
+        self.add_pid_entry()
         self.attach()
 
     @writeonly
     def extend(self, value):
+        value = list(value)
+        check_new_refs(self, self.ref_classdef, value)
         index_name = self.index_name # sets self.data
-        ref_classdef = self.ref_classdef
-
-        for obj in value:
-            assert ref_classdef.isinstance(obj.classdef)
-
-            if obj.root is not self.parent.root:
-                raise AAFAttachError("Object is from a different root")
-
-            if obj.dir:
-                raise AAFAttachError("Object already attached")
 
         for obj in value:
             i = len(self.references)
@@ -661,6 +677,9 @@ class StrongRefVectorProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        check_new_refs(self, self.ref_classdef, value, self.value)
+
         self.clear()
         self.extend(value)
 
@@ -871,13 +890,8 @@ class StrongRefSetProperty(Property):
         classdef = typedef.ref_classdef
 
         # check values are the correct type
-        for item in values:
-            if not classdef.isinstance(item.classdef):
-                raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
-            if item.root is not self.parent.root:
-                raise AAFAttachError("Object is from a different root")
-            if item.dir:
-                raise AAFAttachError("Object already attached")
+        values = list(values)
+        check_new_refs(self, classdef, values)
 
         if self.key_pid is None:
             self.key_pid = classdef.unique_key_pid
@@ -953,10 +967,13 @@ class StrongRefSetProperty(Property):
             self.remove_pid_entry()
             return
 
-        self.clear()
         if isinstance(value, dict):
             value = value.values()
 
+        value = list(value)
+        check_new_refs(self, self.typedef.ref_classdef, value, self.value)
+
+        self.clear()
         self.extend(value)
         return
 
@@ -1211,6 +1228,7 @@ class WeakRefArrayProperty(Property):
         ref_classdef = self.ref_classdef
 
         # check values are the correct type
+        values = list(values)
         for item in values:
             if not ref_classdef.isinstance(item.classdef):
                 raise TypeError("Invalid Value")
-- 
2.43.0


From 239f206dfe8e3db66b1e0d9bd83b3f7aef977932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 07/72] fix: a strong reference vector index below -len is out
 of range

---
 src/aaf2/properties.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 87bbff9..17710b3 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -530,11 +530,11 @@ class StrongRefVectorProperty(Property):
         return "%s{%x}" % (self.index_name, self.references[index])
 
     def get(self, index, default=None):
-        if index >= len(self.references):
-            return default
-
         if index < 0:
-            index = max(0, len(self.references) + index)
+            index = len(self.references) + index
+
+        if index < 0 or index >= len(self.references):
+            return default
 
         item = self.objects.get(index, None)
         if item:
@@ -562,9 +562,9 @@ class StrongRefVectorProperty(Property):
     @writeonly
     def __setitem__(self, index, value):
         if index < 0:
-            index = max(0, len(self) + index)
+            index = len(self) + index
 
-        if index >= len(self):
+        if index < 0 or index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
         check_new_refs(self, self.ref_classdef, [value])
-- 
2.43.0


From f0c5252ae6d08abe28f61540f983e7a75d63dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 08/72] fix: assigning a strong reference detaches the object
 it replaces and refuses one attached elsewhere

---
 src/aaf2/properties.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 17710b3..2efa630 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -340,6 +340,8 @@ class StrongRefProperty(Property):
     def value(self):
         if self.object:
             return self.object
+        if not self.attached or self.ref is None:
+            return None
         dir_entry = self.parent.dir.get(self.ref)
         obj = None
         if dir_entry:
@@ -363,15 +365,18 @@ class StrongRefProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
+        current = self.value if self.pid in self.parent.property_entries else None
+        if value.dir and current is not value:
+            raise AAFAttachError("Object already attached")
+
         if self.ref is None:
             propdef = self.propertydef
             self.ref = mangle_name(propdef.property_name, self.pid, 32)
             self.data = self.encode(self.ref)
 
         # before assigning new object detach old
-        if self.object:
-            self.object.detach()
-            self.object = None
+        if current is not None and current is not value:
+            current.detach()
 
         self.object = value
         if not self.pid in self.parent.property_entries:
-- 
2.43.0


From a5a0afa2d70eaa865a1127a3e83f2049f697cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 09/72] fix: removing a property detaches the objects it owns
 and frees its stream

Objects left behind by value = None or del stayed marked as attached, they
could not be attached again and their streams were lost. del also changed
the objects of read only files.
---
 src/aaf2/core.py       | 10 ++++++++++
 src/aaf2/properties.py | 22 ++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 89829f9..de4a96f 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -342,6 +342,16 @@ class AAFObject(object):
         if result is sentinel:
             raise KeyError(key)
 
+        if not result.writeable:
+            raise AAFPropertyError("file readonly")
+
+        # detach the objects and free the stream it refers to
+        if isinstance(result, (properties.StrongRefProperty,
+                               properties.StrongRefVectorProperty,
+                               properties.StrongRefSetProperty,
+                               properties.StreamProperty)):
+            result.clear()
+
         del self.property_entries[result.pid]
         if self.dir:
             self.root.manager.add_modified(self)
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 2efa630..67e469d 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -251,7 +251,19 @@ class StreamProperty(Property):
 
                 return self.dir.open(mode)
 
+    @writeonly
+    def clear(self):
+        stream = self.dir
+        if self.attached and self.stream_name:
+            stream = self.parent.dir.get(self.stream_name)
+        if stream:
+            self.parent.root.cfb.remove(stream)
+        self.dir = None
+
     def detach(self):
+        if not self.attached:
+            return
+
         if self.stream_name is None:
             raise AAFAttachError("stream has no name")
 
@@ -353,6 +365,7 @@ class StrongRefProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
@@ -407,6 +420,13 @@ class StrongRefProperty(Property):
         # convert to weakref
         self.objectref = weakref.ref(obj)
 
+    @writeonly
+    def clear(self):
+        obj = self.value if self.pid in self.parent.property_entries else None
+        if obj is not None:
+            obj.detach()
+        self.objectref = None
+
 
 def check_new_refs(prop, ref_classdef, values, current=()):
     """
@@ -679,6 +699,7 @@ class StrongRefVectorProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
@@ -969,6 +990,7 @@ class StrongRefSetProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
-- 
2.43.0


From 20f44b23b1031e30c54bcb894c46696a7559edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 10/72] fix: creating a stream property marks its object
 modified, one that was never written can be detached

Reading it in a read only file no longer adds the property to the object.
---
 src/aaf2/properties.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 67e469d..9497c58 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -222,7 +222,9 @@ class StreamProperty(Property):
 
         self.stream_name = mangle_name(self.propertydef.property_name, self.pid, 32)
         self.data = self.encode(self.stream_name)
-        self.add_pid_entry()
+        if self.writeable:
+            self.add_pid_entry()
+            self.mark_modified()
 
     def open(self, mode='r'):
         self.setup_stream()
@@ -269,7 +271,8 @@ class StreamProperty(Property):
 
         stream = self.parent.dir.get(self.stream_name)
         if not stream:
-            raise AAFAttachError("stream doesn't exists")
+            # never written
+            return
 
         stream_path = stream.path()
         tmp = self.parent.root.manager.create_temp_dir().path()
-- 
2.43.0


From 80bbab7b86ea6327e3f5884d5a6077b567aa64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 11/72] fix: a set member can't take the key of another member,
 a displaced member is always detached

---
 src/aaf2/properties.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 9497c58..54d577c 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -904,6 +904,15 @@ class StrongRefSetProperty(Property):
         if obj is None:
             raise ValueError("invalid key: %s" % str(old_key))
 
+        if not isinstance(new_key, type(old_key)):
+            raise ValueError("invalid key: %s" % str(new_key))
+
+        if new_key == old_key:
+            return
+
+        if new_key in self.references:
+            raise ValueError("key already exists: %s" % str(new_key))
+
         # remove reference
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
@@ -936,7 +945,7 @@ class StrongRefSetProperty(Property):
             key = item.unique_key
             assert key is not None
 
-            current = self.objects.get(key, None)
+            current = self.get(key, None)
             current_local_key = self.references.get(key, None)
 
             if current and current is not item:
-- 
2.43.0


From 38c5d979bfa34e3b501506e895cec192aab66647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 12/72] fix: copies of vectors, sets and weak references keep
 their index names, keys and targets

A copied vector with gaps in its local keys raised, empty ones copied to
another file could not be saved, weak reference vectors could only be copied
if the other file had the targets.
---
 src/aaf2/properties.py | 64 +++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 54d577c..00b7405 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -475,13 +475,13 @@ class StrongRefVectorProperty(Property):
         if parent.root is self.parent.root:
             p.objects = {}
             p.references = list(self.references)
-            p.index_name = p.index_name
+            p.index_name = self.index_name
             p.next_free_key = self.next_free_key
             p.last_free_key = self.last_free_key
             p.data = self.data
 
             for i, value in enumerate(self):
-                ref = self.index_ref_name(self.references[i])
+                ref = self.index_ref_name(i)
                 dir_entry = None
                 if parent.dir:
                     dir_entry = parent.dir.get(ref)
@@ -491,9 +491,7 @@ class StrongRefVectorProperty(Property):
                 c = value.copy(dir_entry)
                 p.objects[i] = c
         else:
-            for i, value in enumerate(self):
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self])
 
         return p
 
@@ -778,9 +776,7 @@ class StrongRefSetProperty(Property):
                         dir_entry = parent.dir.makedir(ref)
                 p.objects[key] = value.copy(dir_entry)
         else:
-            for value in self.values():
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self.values()])
 
         return p
 
@@ -1052,6 +1048,27 @@ def resolve_weakref(p, ref):
     else:
         return p.parent.root.resovle_weakref(p.weakref_index, p.key_pid, ref)
 
+def copy_weakref_target(src, dst, ref, cache):
+    """
+    Copies the object ref of the property src refers to, to the root of the
+    property dst. Does nothing if that root already has the object.
+    """
+    root = dst.parent.root
+    weakref_index = root.weakref_index(dst.pid_path)
+    ref_parent, target_property = root.weakref_prop(weakref_index)
+
+    # add property value if not present, definitions can refer to each other
+    key = (tuple(dst.pid_path), ref)
+    if ref not in target_property and key not in cache:
+        cache.add(key)
+        v = resolve_weakref(src, ref)
+        if src.ref_classdef.auid == CLASSDEF_AUID:
+            root.metadict.register_external_classdef(v)
+        elif src.ref_classdef.auid == TYPEDEF_AUID:
+            root.metadict.register_external_typedef(v)
+        else:
+            target_property.append(v.copy(root=root, classdef_cache=cache))
+
 class WeakRefProperty(Property):
     __slots__ = ('weakref_index', 'key_pid', 'key_size', 'ref')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
@@ -1066,25 +1083,16 @@ class WeakRefProperty(Property):
 
         if parent.root is self.parent.root:
             p.weakref_index = self.weakref_index
-            p.key_pid = self.pid
+            p.key_pid = self.key_pid
             p.key_size = self.key_size
             p.ref = self.ref
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-
-            # add property value if not present
-            if self.ref not in target_property:
-                v = self.value
-                if self.ref_classdef.auid == CLASSDEF_AUID:
-                    parent.root.metadict.register_external_classdef(v)
-                if self.ref_classdef.auid == TYPEDEF_AUID:
-                    parent.root.metadict.register_external_typedef(v)
-                else:
-                    c = v.copy(root=parent.root, classdef_cache=cache)
-                    target_property.append(c)
-
-            p.value = target_property[self.ref]
+            copy_weakref_target(self, p, self.ref, cache)
+            p.weakref_index = parent.root.weakref_index(p.pid_path)
+            p.key_pid = p.ref_classdef.unique_key_pid
+            p.key_size = self.key_size
+            p.ref = self.ref
+            p.data = p.encode()
 
         return p
 
@@ -1170,12 +1178,10 @@ class WeakRefArrayProperty(Property):
             p.key_pid = self.key_pid
             p.key_size = self.key_size
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
             for ref in self.references:
-                # copy property here if not present?
-                assert ref in target_property
-                p.append(target_property[ref])
+                copy_weakref_target(self, p, ref, cache)
+            p.extend([]) # sets up index name and key
+            p.references = list(self.references)
 
         return p
 
-- 
2.43.0


From c04db1553f8bb03a4ae7db3769e88becc513756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 13/72] fix: a weak reference set holds each reference once

---
 src/aaf2/properties.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 00b7405..5fc4447 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1268,6 +1268,9 @@ class WeakRefArrayProperty(Property):
             obj = resolve_weakref(self, key)
             yield (key, obj)
 
+    def add_reference(self, ref):
+        self.references.append(ref)
+
     @writeonly
     def extend(self, values):
         ref_classdef = self.ref_classdef
@@ -1293,7 +1296,7 @@ class WeakRefArrayProperty(Property):
             self.key_size = ref_classdef.unique_key_size
 
         for item in values:
-            self.references.append(item.unique_key)
+            self.add_reference(item.unique_key)
 
         self.add_pid_entry()
 
@@ -1324,7 +1327,10 @@ class WeakRefVectorProperty(WeakRefArrayProperty):
 
 
 class WeakRefSetProperty(WeakRefArrayProperty):
-    pass
+
+    def add_reference(self, ref):
+        if ref not in self.references:
+            self.references.append(ref)
 
 
 # haven't see aaf files that contain these yet
-- 
2.43.0


From 9b9911baf4e09309b5aaa479675cc0480a12d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 14/72] fix: copying into a file whose dictionary has no set of
 the referenced definitions

---
 src/aaf2/file.py       | 5 ++++-
 src/aaf2/properties.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 31de58b..503f37c 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -290,7 +290,10 @@ class AAFFile(object):
             p = root.property_entries[pid]
             root = p.value
 
-        p = root.property_entries[path[-1]]
+        p = root.property_entries.get(path[-1], None)
+        if p is None:
+            propertydef = root.classdef.get_propertydef_from_pid(path[-1])
+            p = root[propertydef.property_name]
         return root, p
 
     def weakref_index(self, pid_path):
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 5fc4447..91fc6aa 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1067,7 +1067,10 @@ def copy_weakref_target(src, dst, ref, cache):
         elif src.ref_classdef.auid == TYPEDEF_AUID:
             root.metadict.register_external_typedef(v)
         else:
-            target_property.append(v.copy(root=root, classdef_cache=cache))
+            c = v.copy(root=root, classdef_cache=cache)
+            # copying can add the target property
+            ref_parent, target_property = root.weakref_prop(weakref_index)
+            target_property.append(c)
 
 class WeakRefProperty(Property):
     __slots__ = ('weakref_index', 'key_pid', 'key_size', 'ref')
-- 
2.43.0


From 92c8984a99e3e043507198bdee63797237130405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 15/72] fix: fixed array values padded one element too long,
 and empty ones refused

---
 src/aaf2/types.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 6a9c0aa..b699908 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -367,19 +367,16 @@ class TypeDefFixedArray(TypeDef):
         byte_size = element_typedef.byte_size
         element_count = self.size
         result = b""
+        count = 0
 
-        for i, item in enumerate(data):
-            if i >= element_count:
+        for item in data:
+            if count >= element_count:
                 raise AAFPropertyError("too many elements for fixed array: expected %d elements" % element_count)
-                break
             result += element_typedef.encode(item)
+            count += 1
 
         # zero out remaining bytes
-        if i < element_count:
-            bytes_left = (element_count - i) * byte_size
-            while bytes_left:
-                result += b'\0'
-                bytes_left -= 1
+        result += b'\0' * ((element_count - count) * byte_size)
 
         return result
 
-- 
2.43.0


From 15b01d92ecfe2abe1c7ec2d52f8cf18268a0009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 16/72] fix: property values shared the bytes of the AUID or
 MobID assigned

---
 src/aaf2/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index b699908..385afa9 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -688,11 +688,11 @@ class TypeDefRecord(TypeDef):
     def encode(self, data):
         # MobID
         if self.auid == MOBID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         # AUID
         if self.auid == AUID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         result = b""
         # TimeStamp
@@ -840,11 +840,11 @@ class TypeDefExtEnum(TypeDef):
         for key, value in self.elements.items():
             if isinstance(data, (AUID, UUID)):
                 if data == key:
-                    return key.bytes_le
+                    return bytes(key.bytes_le)
             else:
 
                 if value.lower() == data.lower():
-                    return key.bytes_le
+                    return bytes(key.bytes_le)
 
         raise ValueError("invalid ext enum value: %s" % str(data))
 
-- 
2.43.0


From c840312f51766ec0349ba537163bb08125a941c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 17/72] fix: refuse property values larger than a property can
 store

---
 src/aaf2/properties.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 91fc6aa..a272994 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -53,6 +53,7 @@ MOB_MOBID_AUID         = AUID("01011510-0000-0000-060e-2b3401010101")
 ESSENCEDATA_MOBID_AUID = AUID("06010106-0100-0000-060e-2b3401010102")
 
 PROPERTY_VERSION=32
+MAX_DATA_SIZE=0xFFFF # size field of a property entry is 16 bits
 sentinel = object()
 
 
@@ -150,6 +151,12 @@ class Property(object):
     @value.setter
     @writeonly
     def value(self, value):
+        data = None
+        if value is not None:
+            data = self.typedef.encode(value)
+            if len(data) > MAX_DATA_SIZE:
+                raise AAFPropertyError("value too large for property: %d bytes" % len(data))
+
         if self.data is not None and self.parent.dir and self.unique:
             if self.propertydef.auid == MOB_MOBID_AUID:
                 self.parent.root.content.mobs.swap_unique_key(self.value, value)
@@ -162,7 +169,7 @@ class Property(object):
             self.remove_pid_entry()
             return
 
-        self.data = self.typedef.encode(value)
+        self.data = data
         self.add_pid_entry()
 
     def add_pid_entry(self):
-- 
2.43.0


From 9cdd6d0a826eb1adcc1480c1c28abfe153f14212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 18/72] fix: fractions made from floating point numbers were
 inexact, or had a denominator of zero

---
 src/aaf2/rational.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index d5357de..9aea317 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -35,11 +35,11 @@ class AAFRational(Fraction):
                 # Exact conversion from float
                 value = Fraction.from_float(numerator)
 
-                # make sure fraction can fit in a int32
-                value = value.limit_denominator(0x7FFFFFFF)
-                if value._numerator > 0x7FFFFFFF or value._numerator < -0x7FFFFFFF:
-                    value._denominator = int(value._denominator * (0x7FFFFFFF / float(value._numerator)))
-                    value._numerator = 0x7FFFFFFF
+                # closest fraction whose numerator and denominator fit in a int32
+                limit = 0x7FFFFFFF
+                if abs(value) > 1:
+                    limit = max(1, int(limit / abs(value)))
+                value = value.limit_denominator(limit)
 
                 self._numerator = value._numerator
                 self._denominator = value._denominator
-- 
2.43.0


From 2af17022bc1bdc3add2a2b6b8675cdac3ba83fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 19/72] fix: string arrays could not be written in files
 created by the library

---
 src/aaf2/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 385afa9..ef2c977 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -445,7 +445,8 @@ class TypeDefVarArray(TypeDef):
 
         element_typedef = self.element_typedef
 
-        if element_typedef.type_name == "Character":
+        #aafCharacter
+        if element_typedef.auid == AUID("01100100-0000-0000-060e-2b3401040101"):
             return encode_utf16_array(value)
 
         if isinstance(element_typedef, TypeDefInt):
-- 
2.43.0


From cb65f939995519835c4ccc7148f2c4d1123fdd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 20/72] fix: arrays of extendible enumerations could be written
 but not read

---
 src/aaf2/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index ef2c977..dd7ae18 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -802,6 +802,10 @@ class TypeDefExtEnum(TypeDef):
     def copy(self, root=None):
         return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
 
+    @property
+    def byte_size(self):
+        return 16
+
     def register_element(self, element_name, element_auid):
 
         element_names = []
-- 
2.43.0


From b066497d30e3c0811169b2866b0eb434f880d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 21/72] fix: arrays and records of renamed types could be
 written but not read

---
 src/aaf2/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index dd7ae18..fd39c94 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -757,6 +757,10 @@ class TypeDefRename(TypeDef):
         if PID_RENAME_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_RENAME_TYPE].ref)
 
+    @property
+    def byte_size(self):
+        return self.renamed_typedef.byte_size
+
     def decode(self, data):
         return self.renamed_typedef.decode(data)
 
-- 
2.43.0


From f3c4fd9ad1d556ce08b4b1b54d7015705045a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 22/72] fix: classes with the same name were taken for the same
 class

---
 src/aaf2/metadict.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f16c4ed..0983906 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -409,11 +409,9 @@ class MetaDictionary(core.AAFObject):
             parent_classdef = self.lookup_classdef(parent)
             parent_auid = parent_classdef.auid
 
-        if name in self.classdefs_by_name:
-            c = self.classdefs_by_name[name]
-        elif class_auid in self.classdefs_by_auid:
-            c = self.classdefs_by_name[class_auid]
-        else:
+        # classes are identified by auid, different classes can have the same name
+        c = self.classdefs_by_auid.get(class_auid, None)
+        if c is None:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
 
         if propertydefs:
@@ -429,7 +427,7 @@ class MetaDictionary(core.AAFObject):
 
                 c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
 
-        self.classdefs_by_name[name]   = c
+        self.classdefs_by_name.setdefault(name, c)
         self.classdefs_by_auid[c.auid] = c
 
         # Root is not include in the data model for some reason
-- 
2.43.0


From f072e53c4d65a9ccf24e110d9869b36900c1a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 23/72] fix: pids of extension properties could be given out
 twice

---
 src/aaf2/metadict.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 0983906..3dc449f 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -255,6 +255,10 @@ class ClassDef(core.AAFObject):
         if pid is None:
             pid = self.root.metadict.next_free_pid()
             # assert False
+        elif pid >= 0x8000:
+            if pid in self.root.metadict.local_pids:
+                raise ValueError("local pid 0x%04x is already in use" % pid)
+            self.root.metadict.local_pids.add(pid)
 
         p = PropertyDef(self.root, name, property_auid, pid, typedef_auid, optional, unique)
         # # this is done low level to avoid recursion errors
@@ -417,15 +421,7 @@ class MetaDictionary(core.AAFObject):
         if propertydefs:
             for prop_name, prop_args in propertydefs.items():
                 property_auid = prop_args[0]
-                pid = prop_args[1]
-
-                if pid is None:
-                    pid = self.next_free_pid()
-                elif pid and pid >= 0x8000:
-                    assert pid not in self.local_pids
-                    self.local_pids.add(pid)
-
-                c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
+                c.register_propertydef(prop_name, property_auid, *prop_args[1:])
 
         self.classdefs_by_name.setdefault(name, c)
         self.classdefs_by_auid[c.auid] = c
-- 
2.43.0


From c736706941533b28c2faebcc3f8b5e00c54083e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 24/72] fix: types copied to another file lost their names or
 could not be copied

---
 src/aaf2/types.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index fd39c94..bae5458 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -42,7 +42,7 @@ class TypeDef(core.AAFObject):
         return self
 
     def copy(self, root=None):
-        return self.__class__(root or self.root, self.name, self.auid)
+        return self.__class__(root or self.root, self.type_name, self.auid)
 
     @property
     def unique_key(self):
@@ -89,7 +89,7 @@ class TypeDefInt(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefInt(root or self.root, self.name, self.auid, self.size, self.signed)
+        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)
 
     @property
     def signed(self):
@@ -147,7 +147,7 @@ class TypeDefStrongRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefStrongRef(root or self.root, self.name, self.auid, self.ref_classdef.auid)
+        return TypeDefStrongRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid)
 
     @property
     def store_format(self):
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)
 
     @property
     def store_format(self):
@@ -240,7 +240,7 @@ class TypeDefEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefEnum(root or self.root, self.name, self.auid, self.element_typedef.auid, self.elements)
+        return TypeDefEnum(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -327,7 +327,7 @@ class TypeDefFixedArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefFixedArray(root or self.root, self.name, self.auid, self.element_typedef.auid, self.size)
+        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)
 
     @property
     def element_typedef(self):
@@ -395,7 +395,7 @@ class TypeDefVarArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefVarArray(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefVarArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def store_format(self):
@@ -476,7 +476,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -538,7 +538,7 @@ class TypeDefString(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefString(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefString(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -579,8 +579,8 @@ class TypeDefRecord(TypeDef):
         if root:
             names = []
             types = []
-            for name, val in fields:
-                names.append(name)
+            for field_name, val in fields:
+                names.append(field_name)
                 types.append(val)
 
             properties.add_utf16_array_property(self, PID_RECORD_NAMES, names)
@@ -592,7 +592,7 @@ class TypeDefRecord(TypeDef):
     def copy(self, root=None):
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = [typedef.auid for typedef in self['MemberTypes'].value]
-        return TypeDefRecord(root or self.root, self.name, self.auid, zip(names, types))
+        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))
 
     @property
     def member_names(self):
@@ -750,7 +750,7 @@ class TypeDefRename(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefRename(root or self.root, self.name, self.auid, self.renamed_typedef.auid)
+        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)
 
     @property
     def renamed_typedef(self):
@@ -804,7 +804,7 @@ class TypeDefExtEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
+        return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -936,7 +936,7 @@ class TypeDefGenericCharacter(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefGenericCharacter(root or self.root, self.name, self.auid, self.size)
+        return TypeDefGenericCharacter(root or self.root, self.type_name, self.auid, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From efe1d84497051e1aa1c11e5e4b03821e906faf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 25/72] fix: record members were resolved by the names of their
 types

---
 src/aaf2/types.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index bae5458..a9f2a4b 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -608,14 +608,15 @@ class TypeDefRecord(TypeDef):
             return self._fields
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = list(self['MemberTypes'].value)
-        self._fields = list(zip(names, [t.type_name for t in types]))
+        # type names are not unique
+        self._fields = list(zip(names, [t.auid for t in types]))
         return self._fields
 
     @property
     def byte_size(self):
         size = 0
-        for key, typedef_name in self.fields:
-            typedef = self.root.metadict.typedefs_by_name[typedef_name]
+        for key, typedef_auid in self.fields:
+            typedef = self.root.metadict.lookup_typedef(typedef_auid)
             size += typedef.byte_size
         if size == 0:
             print("!!", self['MemberTypes'].value, list(iter_utf16_array(self['MemberNames'].data)))
@@ -638,8 +639,8 @@ class TypeDefRecord(TypeDef):
         start = 0
         result = {}
 
-        for key, typedef_name in self.fields:
-            typedef = self.root.metadict.lookup_typedef(typedef_name)
+        for key, typedef_auid in self.fields:
+            typedef = self.root.metadict.lookup_typedef(typedef_auid)
 
             end = start + typedef.byte_size
             result[key] = typedef.decode(data[start:end])
@@ -729,8 +730,8 @@ class TypeDefRecord(TypeDef):
             r = AAFRational(data)
             data = {'Numerator': r.numerator, 'Denominator':r.denominator }
 
-        for key, typedef_name in self.fields:
-            typedef = self.root.metadict.lookup_typedef(typedef_name)
+        for key, typedef_auid in self.fields:
+            typedef = self.root.metadict.lookup_typedef(typedef_auid)
             value = typedef.encode(data[key])
             result+=value
 
-- 
2.43.0


From 74eb608cde75c6662724cfedf4dcba4151fe0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 26/72] fix: comparing class definitions always gave a false
 value

---
 src/aaf2/metadict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 3dc449f..46a12c6 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -145,7 +145,9 @@ class ClassDef(core.AAFObject):
         return self
 
     def __eq__(self, other):
-        self.auid == other.auid
+        if not isinstance(other, ClassDef):
+            return NotImplemented
+        return self.auid == other.auid
 
     @property
     def auid(self):
-- 
2.43.0


From eae1ce086b7cb6e5c05adf2b60fc43f9cbb02818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 27/72] fix: names added to an enumeration of a saved file were
 not saved

---
 src/aaf2/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index a9f2a4b..0a22956 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -278,6 +278,7 @@ class TypeDefEnum(TypeDef):
         self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)
         fmt = b"<%dq" % len(values)
         self.property_entries[PID_ENUM_VALUES].data = pack(fmt, *values)
+        self.property_entries[PID_ENUM_VALUES].mark_modified()
 
     def decode(self, data):
 
@@ -829,6 +830,7 @@ class TypeDefExtEnum(TypeDef):
 
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
+        self.property_entries[PID_EXTENUM_VALUES].mark_modified()
 
     @property
     def elements(self):
-- 
2.43.0


From 70db027d478366feb6cee4ee15ea9bd8d301f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 28/72] fix: registering a type again replaced the definition
 the file has

---
 src/aaf2/metadict.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 46a12c6..732ba97 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -364,22 +364,27 @@ class MetaDictionary(core.AAFObject):
                 if not isinstance(args, (tuple,list)):
                     args = [args]
 
+                existing = self.typedefs_by_auid.get(AUID(args[0]), None)
+
                 if cat == "extenums":
-                    if name in self.typedefs_by_name:
-                        t = self.typedefs_by_name[name]
+                    if existing or name in self.typedefs_by_name:
+                        t = existing or self.typedefs_by_name[name]
                         for element_value, element_name in args[1].items():
                             t.register_element(element_name, AUID(element_value))
                     else:
                         t = types.TypeDefExtEnum(self.root, name, *args)
                         properties.add2set(self, PID_TYPEDEFS, t.auid, t)
                 elif cat == "enums":
-                    if name in self.typedefs_by_name:
-                        t = self.typedefs_by_name[name]
+                    if existing or name in self.typedefs_by_name:
+                        t = existing or self.typedefs_by_name[name]
                         for element_value, element_name in args[2].items():
                             t.register_element(element_name, element_value)
                     else:
                         t = types.TypeDefEnum(self.root, name, *args)
                         properties.add2set(self, PID_TYPEDEFS, t.auid, t)
+                elif existing:
+                    # keep the definition the file has, other definitions refer to it
+                    t = existing
                 else:
 
                     t = classobj(self.root, name, *args)
-- 
2.43.0


From 2b9217a742a8197c770e09c7ec7d645626716270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 29/72] fix: copying types and classes that lead back to
 themselves never ended

The names of enumerations inside types both files have were not brought along either.
---
 src/aaf2/metadict.py | 64 +++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 732ba97..df8191e 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -438,43 +438,41 @@ class MetaDictionary(core.AAFObject):
             properties.add2set(self, PID_CLASSDEFS, c.auid, c)
         return c
 
-    def register_external_typedef(self, ext_typedef):
+    def register_external_typedef(self, ext_typedef, registered_classdefs=None):
         if not isinstance(ext_typedef, types.TypeDef):
             return None
 
         typedef = self.lookup_typedef(ext_typedef.auid)
+        missing = typedef is None
 
-        # create typedef if missing
-        if not typedef:
-            if isinstance(ext_typedef, (types.TypeDefStrongRef,
-                                        types.TypeDefWeakRef)):
-                # could this cause RecursionError?
-                classdef = ext_typedef.ref_classdef
-                self.register_external_classdef(classdef)
-
-            elif isinstance(ext_typedef, (types.TypeDefFixedArray,
-                                          types.TypeDefVarArray,
-                                          types.TypeDefSet,
-                                          types.TypeDefString,
-                                          types.TypeDefEnum)):
+        # create typedef if missing, before the definitions it uses,
+        # these can lead back to it
+        if missing:
+            typedef = ext_typedef.copy(self.root)
 
-                self.register_external_typedef(ext_typedef.element_typedef)
+            self['TypeDefinitions'].append(typedef)
+            self.typedefs_by_name[typedef.type_name] = typedef
+            self.typedefs_by_auid[typedef.auid] = typedef
 
-            elif isinstance(ext_typedef, types.TypeDefRecord):
-                for t in ext_typedef.member_types:
-                    self.register_external_typedef(t)
+        if isinstance(ext_typedef, (types.TypeDefStrongRef,
+                                    types.TypeDefWeakRef)):
+            if missing:
+                self.register_external_classdef(ext_typedef.ref_classdef, registered_classdefs)
 
-            elif isinstance(ext_typedef, types.TypeDefRename):
-                self.register_external_typedef(ext_typedef.renamed_typedef)
+        elif isinstance(ext_typedef, (types.TypeDefFixedArray,
+                                      types.TypeDefVarArray,
+                                      types.TypeDefSet,
+                                      types.TypeDefString,
+                                      types.TypeDefEnum)):
 
-            elif isinstance(ext_typedef, types.TypeDefEnum):
-                self.register_external_typedef(ext_typedef.element_typedef)
+            self.register_external_typedef(ext_typedef.element_typedef, registered_classdefs)
 
-            typedef = ext_typedef.copy(self.root)
+        elif isinstance(ext_typedef, types.TypeDefRecord):
+            for t in ext_typedef.member_types.value:
+                self.register_external_typedef(t, registered_classdefs)
 
-            self['TypeDefinitions'].append(typedef)
-            self.typedefs_by_name[typedef.type_name] = typedef
-            self.typedefs_by_auid[typedef.auid] = typedef
+        elif isinstance(ext_typedef, types.TypeDefRename):
+            self.register_external_typedef(ext_typedef.renamed_typedef, registered_classdefs)
 
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
@@ -487,10 +485,20 @@ class MetaDictionary(core.AAFObject):
 
         return typedef
 
-    def register_external_classdef(self, ext_classdef):
+    def register_external_classdef(self, ext_classdef, registered_classdefs=None):
+        # strong reference types can lead back to a class
+        # that is already being registered
+        if registered_classdefs is None:
+            registered_classdefs = set()
+
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
+
         for c in class_chain[1:]:
+            if c.auid in registered_classdefs:
+                continue
+            registered_classdefs.add(c.auid)
+
             classdef = self.lookup_classdef(c.auid)
             if not classdef:
                 classdef = self.register_classdef(c.class_name,
@@ -499,7 +507,7 @@ class MetaDictionary(core.AAFObject):
                                                   c.concrete)
 
             for p in c.propertydefs:
-                typedef = self.register_external_typedef(p.typedef)
+                typedef = self.register_external_typedef(p.typedef, registered_classdefs)
                 pid = p.pid
 
                 if pid >= 0x8000:
-- 
2.43.0


From d3593c419ec7ff844041a2e2e9834df002c4ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 30/72] fix: extension properties of InterchangeObject could
 not be copied

---
 src/aaf2/metadict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index df8191e..69d65d4 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -494,7 +494,7 @@ class MetaDictionary(core.AAFObject):
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
 
-        for c in class_chain[1:]:
+        for c in class_chain:
             if c.auid in registered_classdefs:
                 continue
             registered_classdefs.add(c.auid)
@@ -503,7 +503,7 @@ class MetaDictionary(core.AAFObject):
             if not classdef:
                 classdef = self.register_classdef(c.class_name,
                                                   c.auid,
-                                                  c.parent.auid,
+                                                  c.parent_id,
                                                   c.concrete)
 
             for p in c.propertydefs:
-- 
2.43.0


From 214a31e44319ef699ecd92f37414a1da4411b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 31/72] fix: pids of definitions a file lacks could collide
 with its own

---
 src/aaf2/metadict.py | 63 ++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 69d65d4..f12826f 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -567,6 +567,13 @@ class MetaDictionary(core.AAFObject):
         return result
 
     def read_properties(self):
+        # dynamic pids of the data model
+        model_pids = {}
+        for classdef in self.classdefs_by_auid.values():
+            for pid, pdef in classdef.propertydef_by_pid.items():
+                if pid >= 0x8000:
+                    model_pids[pid] = pdef.auid
+
         super(MetaDictionary, self).read_properties()
         for key, typedef in self['TypeDefinitions'].items():
             self.typedefs_by_name[typedef.type_name] = typedef
@@ -587,34 +594,6 @@ class MetaDictionary(core.AAFObject):
             classdef.propertydef_by_pid = propertydef_by_pid
 
 
-        # add typedefs not defined by file data model
-        if self.root.writeable:
-            for key, typedef in self.typedefs_by_auid.items():
-                # skip root typedefs
-                if key in (AUID('05022800-0000-0000-060E-2B3401040101'),
-                           AUID('05022700-0000-0000-060E-2B3401040101')):
-                    continue
-
-                if key not in self['TypeDefinitions']:
-                    # this is super annoying, handle typedefs that have dynamic pids
-                    classdef = self.classdefs_by_auid.get(typedef.class_id)
-                    assert classdef
-                    for pdef in classdef['Properties'].values():
-                        if pdef.pid >= 0x8000:
-                            # if typedef has a dynamic pid might need to change it
-                            if pdef.pid in self.local_pids:
-                                old_pid = pdef.pid
-                                new_pid = self.next_free_pid()
-                                pdef.pid = new_pid
-
-                                prop = typedef.property_entries.pop(old_pid)
-                                prop.pid = new_pid
-                                typedef.property_entries[new_pid] = prop
-
-                    self['TypeDefinitions'].append(typedef)
-                    if classdef.auid not in self['ClassDefinitions']:
-                        self['ClassDefinitions'].append(classdef)
-
         # add classdefs not defined by file data model
         if self.root.writeable:
             for key, classdef in self.classdefs_by_auid.items():
@@ -628,6 +607,34 @@ class MetaDictionary(core.AAFObject):
                     for pdef in classdef['Properties'].values():
                         if pdef.pid >= 0x8000:
                             if pdef.pid in self.local_pids:
+                                del classdef.propertydef_by_pid[pdef.pid]
                                 pdef.pid = self.next_free_pid()
+                                classdef.propertydef_by_pid[pdef.pid] = pdef
+                            else:
+                                self.local_pids.add(pdef.pid)
 
                     self['ClassDefinitions'].append(classdef)
+
+        # add typedefs not defined by file data model
+        if self.root.writeable:
+            for key, typedef in self.typedefs_by_auid.items():
+                # skip root typedefs
+                if key in (AUID('05022800-0000-0000-060E-2B3401040101'),
+                           AUID('05022700-0000-0000-060E-2B3401040101')):
+                    continue
+
+                if key not in self['TypeDefinitions']:
+                    # this is super annoying, handle typedefs that have dynamic pids
+                    # the file might use other pids for these
+                    classdef = self.classdefs_by_auid.get(typedef.class_id)
+                    assert classdef
+                    entries = {}
+                    for pid, prop in typedef.property_entries.items():
+                        if pid in model_pids:
+                            pdef = classdef.lookup_propertydef(model_pids[pid])
+                            if pdef:
+                                prop.pid = pdef.pid
+                        entries[prop.pid] = prop
+                    typedef.property_entries = entries
+
+                    self['TypeDefinitions'].append(typedef)
-- 
2.43.0


From d375f29f85b3d2d19990f1f32be6878819c499c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 32/72] fix: sets of classes derived from keyed classes had
 keys of the wrong size

---
 src/aaf2/metadict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f12826f..904c227 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -181,14 +181,14 @@ class ClassDef(core.AAFObject):
 
         # Parameter work around
         # Uses the DefinitionObject Identification PID
-        if self.isinstance(self.root.metadict.lookup_classdef(AUID("0d010101-0101-3c00-060e-2b3402060101"))):
+        if self.root.metadict.lookup_classdef(AUID("0d010101-0101-3c00-060e-2b3402060101")).isinstance(self):
             return 0x1B01
 
     @property
     def unique_key_size(self):
         mob_classdef = self.root.metadict.lookup_classdef(AUID("0d010101-0101-3400-060e-2b3402060101"))
         essencedata_classdef = self.root.metadict.lookup_classdef(AUID("0d010101-0101-2300-060e-2b3402060101"))
-        if self.isinstance(mob_classdef) or self.isinstance(essencedata_classdef):
+        if mob_classdef.isinstance(self) or essencedata_classdef.isinstance(self):
             return 32
         return 16
 
-- 
2.43.0


From a922fcde8dd5b2d0c7d5ff12f3417a16688e9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 33/72] fix: changing the key of a mob outside the mob set
 changed another mob's

---
 src/aaf2/properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a272994..5d31086 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -158,10 +158,14 @@ class Property(object):
                 raise AAFPropertyError("value too large for property: %d bytes" % len(data))
 
         if self.data is not None and self.parent.dir and self.unique:
+            members = None
             if self.propertydef.auid == MOB_MOBID_AUID:
-                self.parent.root.content.mobs.swap_unique_key(self.value, value)
+                members = self.parent.root.content.mobs
             elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:
-                self.parent.root.content.essencedata.swap_unique_key(self.value, value)
+                members = self.parent.root.content.essencedata
+
+            if members is not None and members.get(self.value) is self.parent:
+                members.swap_unique_key(self.value, value)
             else:
                 raise AAFPropertyError("cannot change unique property value of attached object")
 
-- 
2.43.0


From 71c6448a23bfec855c358a0503d98885c08c42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 34/72] fix: changing the definition of a parameter left its
 set with the old key

---
 src/aaf2/properties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 5d31086..96af3d8 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -51,6 +51,7 @@ TYPEDEF_AUID           = AUID("0d010101-0203-0000-060e-2b3402060101")
 
 MOB_MOBID_AUID         = AUID("01011510-0000-0000-060e-2b3401010101")
 ESSENCEDATA_MOBID_AUID = AUID("06010106-0100-0000-060e-2b3401010102")
+PARAMETER_DEFINITION_AUID = AUID("06010104-0104-0000-060e-2b3401010102")
 
 PROPERTY_VERSION=32
 MAX_DATA_SIZE=0xFFFF # size field of a property entry is 16 bits
@@ -157,7 +158,9 @@ class Property(object):
             if len(data) > MAX_DATA_SIZE:
                 raise AAFPropertyError("value too large for property: %d bytes" % len(data))
 
-        if self.data is not None and self.parent.dir and self.unique:
+        # the definition of a parameter is its key, but is not declared as such
+        is_key = self.unique or self.propertydef.auid == PARAMETER_DEFINITION_AUID
+        if self.data is not None and self.parent.dir and is_key:
             members = None
             if self.propertydef.auid == MOB_MOBID_AUID:
                 members = self.parent.root.content.mobs
-- 
2.43.0


From 7397ba08040dfb1767c12b4823140e0f75f925d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:01 +0000
Subject: [PATCH 35/72] fix: the key of an attached object could be deleted

---
 src/aaf2/core.py       |  3 +++
 src/aaf2/properties.py | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index de4a96f..07774ec 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -345,6 +345,9 @@ class AAFObject(object):
         if not result.writeable:
             raise AAFPropertyError("file readonly")
 
+        if result.is_attached_key():
+            raise AAFPropertyError("cannot delete unique property of attached object")
+
         # detach the objects and free the stream it refers to
         if isinstance(result, (properties.StrongRefProperty,
                                properties.StrongRefVectorProperty,
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 96af3d8..a8b134e 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -125,6 +125,15 @@ class Property(object):
     def unique(self):
         return self.propertydef.unique
 
+    def is_attached_key(self):
+        """True if this is the key the set holding the parent finds it with"""
+
+        if self.data is None or not self.parent.dir:
+            return False
+
+        # the definition of a parameter is its key, but is not declared as such
+        return self.unique or self.propertydef.auid == PARAMETER_DEFINITION_AUID
+
     @property
     def name(self):
         propertydef = self.propertydef
@@ -158,9 +167,7 @@ class Property(object):
             if len(data) > MAX_DATA_SIZE:
                 raise AAFPropertyError("value too large for property: %d bytes" % len(data))
 
-        # the definition of a parameter is its key, but is not declared as such
-        is_key = self.unique or self.propertydef.auid == PARAMETER_DEFINITION_AUID
-        if self.data is not None and self.parent.dir and is_key:
+        if self.is_attached_key():
             members = None
             if self.propertydef.auid == MOB_MOBID_AUID:
                 members = self.parent.root.content.mobs
-- 
2.43.0


From 0b5aabbba35250eea8331adef8a1c36a96e4df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 36/72] fix: Sequence.index_at_time at the exact start of a
 component

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 09fa719..dc977e0 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -98,7 +98,7 @@ class Sequence(Segment):
                     return index
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index
 
             last_component = component
-- 
2.43.0


From b4be6ce0c8262b3656dc5fdf2a3046e5370ce02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 37/72] fix: length of a slot with a NestedScope was always 0

---
 src/aaf2/mobslots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobslots.py b/src/aaf2/mobslots.py
index 4220f29..674ded8 100644
--- a/src/aaf2/mobslots.py
+++ b/src/aaf2/mobslots.py
@@ -135,7 +135,7 @@ class TimelineMobSlot(MobSlot):
         elif isinstance(segment, components.NestedScope):
             length = 0
             for slot in segment.slots:
-                max(length, slot.length)
+                length = max(length, slot.length)
             return length
         else:
             return segment.length
-- 
2.43.0


From c9dce3b4927dd5150a7f6a1125de8f46ef2d3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 38/72] fix: create_timeline_slot could pick the id of an
 existing slot

---
 src/aaf2/mobs.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 8eb33cd..42ee9e9 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -88,15 +88,10 @@ class Mob(core.AAFObject):
 
     def create_timeline_slot(self, edit_rate, slot_id=None):
         slots = [slot.slot_id for slot in self.slots]
-        slots.sort()
         if slot_id is None:
-            start = 1
-            if slots and slots[0] == 0:
-                start = 0
-
-            for i, e in enumerate(slots + [None], start):
-                if i != e:
-                    slot_id = i
+            slot_id = 1
+            while slot_id in slots:
+                slot_id += 1
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From 9371ff4bdab21acd9a9a612121f4d44892b87bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 39/72] fix: dependant_mobs never ended on mobs that refer to
 each other

---
 src/aaf2/mobs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 42ee9e9..9d281da 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -148,18 +148,21 @@ class Mob(core.AAFObject):
         """
 
         visited = set()
+        expanded = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
             children_processed = True
+            expanded.add(mob.mob_id)
 
             for obj, _ in mob.walk_references(topdown=True):
                 if isinstance(obj, SourceReference):
                     ref_mob = obj.mob
                     if not ref_mob:
                         continue
-                    if ref_mob.mob_id not in visited:
+                    # a mob that is still being processed closes a cycle
+                    if ref_mob.mob_id not in visited and ref_mob.mob_id not in expanded:
                         stack.append(ref_mob)
                         children_processed = False
 
-- 
2.43.0


From e80b5de99320246bfeeb2c15e8878b9030221cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 40/72] fix: a refused comment value left a comment without
 value that could not be saved

---
 src/aaf2/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 2deec66..3b4537a 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -49,11 +49,13 @@ class TaggedValueHelper(object):
     def __setitem__(self, key, value):
         tag = self.get(key, None)
         if tag is None:
+            # not added before it has a value, the value may be refused
             tag = self.p.parent.root.create.TaggedValue()
             tag['Name'].value = key
+            tag['Value'].value = value
             self.p.append(tag)
-
-        tag['Value'].value = value
+        else:
+            tag['Value'].value = value
 
 @register_class
 class TaggedValue(core.AAFObject):
-- 
2.43.0


From 994f6af739a7a834996dc18f0796faeec50d3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 41/72] fix: changes made through a property obtained before it
 was added were lost

---
 src/aaf2/properties.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a8b134e..9150b23 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -62,6 +62,10 @@ def writeonly(func):
     def func_wrapper(self, *args, **kwargs):
         if not self.writeable:
             raise AAFPropertyError("file readonly")
+        # the property could have been added or replaced since this was obtained
+        current = self.parent.property_entries.get(self.pid, self)
+        if type(current) is type(self):
+            self = current
         result = func(self, *args, **kwargs)
         self.mark_modified()
         return result
@@ -248,6 +252,10 @@ class StreamProperty(Property):
             self.mark_modified()
 
     def open(self, mode='r'):
+        current = self.parent.property_entries.get(self.pid, self)
+        if current is not self:
+            return current.open(mode)
+
         self.setup_stream()
 
         if mode == 'r':
-- 
2.43.0


From 85e89f39a5f4d3a1208604c893b3cdd8d367513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 42/72] fix: comments obtained before the first one was added
 did not show them

---
 src/aaf2/misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 3b4537a..84205f7 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -21,7 +21,12 @@ CubicInterpolator  = AUID("a04a5439-8a0e-4cb7-975f-a5b255866883")
 
 class TaggedValueHelper(object):
     def __init__(self, poperty_vector):
-        self.p = poperty_vector
+        self.property = poperty_vector
+
+    @property
+    def p(self):
+        # the property could have been added or replaced since
+        return self.property.parent.property_entries.get(self.property.pid, self.property)
 
     def get(self, key, default=None):
         for item in self.p:
-- 
2.43.0


From b3cc8923b3c445d012895c0ca3468845bdd886a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 43/72] fix: a property whose value was removed still showed it

---
 src/aaf2/properties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 9150b23..de467de 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -185,6 +185,7 @@ class Property(object):
 
         if value is None:
             self.remove_pid_entry()
+            self.data = None
             return
 
         self.data = data
@@ -1171,6 +1172,8 @@ class WeakRefProperty(Property):
     def value(self, value):
         if value is None:
             self.remove_pid_entry()
+            self.data = None
+            self.ref = None
             return
 
         ref_classdef = self.ref_classdef
@@ -1346,11 +1349,11 @@ class WeakRefArrayProperty(Property):
     @value.setter
     @writeonly
     def value(self, value):
+        self.clear()
         if value is None:
             self.remove_pid_entry()
             return
 
-        self.clear()
         self.extend(value)
 
 
-- 
2.43.0


From e9ed023bf9cf9fb7ccb1edbd486cc33f49ea5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 44/72] fix: the value of an absent weak reference raised
 instead of being None

---
 src/aaf2/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index de467de..57c952d 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1161,6 +1161,8 @@ class WeakRefProperty(Property):
 
     @property
     def value(self):
+        if self.ref is None:
+            return None
         return resolve_weakref(self, self.ref)
 
     @property
-- 
2.43.0


From 4709c864269b980bc3b6180de6a35a8208aebc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 45/72] fix: a copied value of a type the other file lacks
 could not be read there

---
 src/aaf2/properties.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 57c952d..8bd733d 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -153,6 +153,12 @@ class Property(object):
     def copy(self, parent, pid, cache=None):
         p = self.__class__(parent, pid, self.format, version=PROPERTY_VERSION)
         p.data = bytes(self.data)
+
+        # the type of the value itself could be missing in the other file
+        if parent.root is not self.parent.root and self.data:
+            decode_typedef = getattr(self.typedef, 'decode_typedef', None)
+            if decode_typedef:
+                parent.root.metadict.register_external_typedef(decode_typedef(self.data))
         return p
 
     @property
-- 
2.43.0


From 71aaffb81aaa1b5eb3155fcb7c1c71225212066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 46/72] fix: changes through a property obtained before it was
 deleted brought its old value back

---
 src/aaf2/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 07774ec..17bbb62 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -354,8 +354,11 @@ class AAFObject(object):
                                properties.StrongRefSetProperty,
                                properties.StreamProperty)):
             result.clear()
+        else:
+            # the program could still have the property
+            result.value = None
 
-        del self.property_entries[result.pid]
+        self.property_entries.pop(result.pid, None)
         if self.dir:
             self.root.manager.add_modified(self)
 
-- 
2.43.0


From 3ad7ad6e62ee4e2b22f37d89629191e9cf506701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 47/72] fix: assigning OperationGroup.parameters always raised

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index dc977e0..cc4d133 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -324,7 +324,7 @@ class OperationGroup(Segment):
 
     @parameters.setter
     def parameters(self, value):
-        self['Parameters'] = value
+        self['Parameters'].value = value
 
     @property
     def segments(self):
-- 
2.43.0


From 0433e8ef87c6c0d326db38f931e2fff8989e0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 48/72] fix: a keyframe before the first one was added after it

---
 src/aaf2/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 84205f7..a574e51 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -249,6 +249,9 @@ class VaryingValue(Parameter):
             nearest = pointlist[index]
             if float(nearest.time) == float(time):
                 pointlist[index] = cp
+            elif float(nearest.time) > float(time):
+                # before the first one
+                pointlist.insert(index, cp)
             else:
                 pointlist.insert(index+1, cp)
         else:
-- 
2.43.0


From c843f6323df53a02d0d2f7067141b79118916388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 49/72] fix: changing the value of a control point changed its
 type

---
 src/aaf2/misc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index a574e51..a9d535d 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -378,7 +378,18 @@ class ControlPoint(core.AAFObject):
 
     @value.setter
     def value(self, value):
-        self['Value'].value = AAFRational(value)
+        typedef = None
+        if self['Value'].data:
+            typedef = self['Value'].typedef.decode_typedef(self['Value'].data)
+
+        # keep the type the value has, that is the one of the parameter
+        if typedef is None or typedef.type_name == 'Rational':
+            self['Value'].value = AAFRational(value)
+        else:
+            data = self['Value'].typedef.encode(value, typedef.type_name)
+            self['Value'].add_pid_entry()
+            self['Value'].data = data
+            self['Value'].mark_modified()
 
     @property
     def point_properties(self):
-- 
2.43.0


From 8d8999b60eb27ed3f85faaf004ada7523b747a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 50/72] fix: a keyframe at a fraction could be added twice

---
 src/aaf2/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index a9d535d..092bba3 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -343,6 +343,7 @@ class VaryingValue(Parameter):
         """
         binary search for index of point.time <= t
         """
+        t = float(t)
         pointlist = self['PointList']
         start = 0
         end = len(pointlist) - 1
-- 
2.43.0


From 5b1f569dba31073da1ed896aecea1f5f3f6b2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 51/72] fix: offset maps of a single keyframe or ending before
 the first one raised

---
 src/aaf2/interpolation.py | 1 +
 src/aaf2/misc.py          | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index 26b93d7..c200a9a 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -289,6 +289,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = start - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 092bba3..8b1e97b 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -431,7 +431,7 @@ def generate_offset_map(speed_map, start=0, end=None):
     offset_index = None
 
     inter_start = min(start, center)
-    inter_end = max(center,  end+1)
+    inter_end = max(center, end) + 1
 
     for i, (t,v) in enumerate(integrate_iter(speed_map.value_at, inter_start, inter_end)):
         time.append(t)
-- 
2.43.0


From dae0332067ed6fa0be1fd59697643e82cc97c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 52/72] fix: bezier interpolation raised at keyframes with
 handles of no length

---
 src/aaf2/interpolation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index c200a9a..cb36030 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -152,7 +152,13 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
+
+    # the ends are double roots if a handle has no length
+    if x <= p0[0]:
+        return p0[1]
+    if x >= p3[0]:
+        return p3[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
@@ -177,8 +183,8 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # solve for x = 0
     roots = bezier_cubic_roots(pa, pb, pc, pd)
     if not roots:
-        # fall back to old method or decrease EPSILON precision?
-        assert False
+        # fall back to old method
+        return bezier_interpolate_old(p0, p1, p2, p3, x)
 
     # use the root as t for y
     y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
-- 
2.43.0


From 0571def352cae602a91079fac745e32a79382891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 53/72] fix: the definition of a parameter was missing in the
 file it was copied to

---
 src/aaf2/misc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 8b1e97b..22f758a 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -144,6 +144,16 @@ class Parameter(core.AAFObject):
     def unique_property(self):
         return self['Definition']
 
+    def copy(self, new_dir=None, root=None, classdef_cache=None):
+        # nothing but this property refers to the definition
+        definition = self.get('Definition', None)
+        if definition is not None and root is not None and root is not self.root:
+            parameterdef = self.root.dictionary.lookup_parameterdef(definition.value)
+            if parameterdef is not None and root.dictionary.lookup_parameterdef(definition.value) is None:
+                root.dictionary.register_def(parameterdef.copy(root=root, classdef_cache=classdef_cache))
+
+        return super(Parameter, self).copy(new_dir=new_dir, root=root, classdef_cache=classdef_cache)
+
     @property
     def unique_key(self):
         return self.unique_property.value
-- 
2.43.0


From c133e2c1e0cfb0a3c41295bfcb0dcae2c9ff6670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 54/72] fix: a refused import left mobs and essence that could
 not be saved

---
 src/aaf2/mobs.py  |  9 +++++++--
 src/aaf2/video.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 9d281da..7823099 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -198,10 +198,10 @@ class MasterMob(Mob):
 
         # create sourceMob and essencedata
         source_mob = self.root.create.SourceMob("%s.PHYS" % self.name)
-        self.root.content.mobs.append(source_mob)
 
         # import the essencedata
         source_slot = source_mob.import_dnxhd_essence(path, edit_rate, tape, length, offline)
+        self.root.content.mobs.append(source_mob)
 
         # create slot and clip that references source_mob slot
         slot = self.create_timeline_slot(edit_rate=edit_rate)
@@ -218,9 +218,9 @@ class MasterMob(Mob):
 
         # create sourceMob and essencedata
         source_mob = self.root.create.SourceMob("%s.PHYS" % self.name)
-        self.root.content.mobs.append(source_mob)
 
         source_slot = source_mob.import_audio_essence(path, edit_rate, tape, length, offline)
+        self.root.content.mobs.append(source_mob)
 
         # create slot and clip that references source_mob slot
         edit_rate = edit_rate or source_slot.edit_rate
@@ -336,6 +336,11 @@ class SourceMob(Mob):
         Import video essence from raw DNxHD/DNxHR stream
         """
 
+        # create nothing for a file that is not a DNxHD/DNxHR stream
+        with io.open(path, 'rb') as f:
+            if video.count_dnx_frames(f) == 0:
+                raise ValueError("Invalid DNxHD stream: no frames: %s" % path)
+
         essencedata, slot = self.create_essence(edit_rate, 'picture', offline=offline)
 
         if tape:
diff --git a/src/aaf2/video.py b/src/aaf2/video.py
index 2e96183..3e4da94 100644
--- a/src/aaf2/video.py
+++ b/src/aaf2/video.py
@@ -226,6 +226,16 @@ def read_dnx_frame_header(dnx_header):
 
     return cid, width, height, bitdepth, interlaced
 
+def count_dnx_frames(f):
+    count = 0
+    while True:
+        dnx_header = f.read(640)
+        if len(dnx_header) != 640:
+            return count
+        cid, width, height, bitdepth, interlaced = read_dnx_frame_header(dnx_header)
+        f.seek(dnx_frame_size(cid, width, height) - 640, 1)
+        count += 1
+
 def iter_dnx_stream(f):
     while True:
         dnx_header = f.read(640)
-- 
2.43.0


From 73ea0a4d48d65ed4fbbebf7f73236bfc43357f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 55/72] fix: import_audio_essence did not take edit rates like
 30000/1001

---
 src/aaf2/mobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 7823099..29f640c 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -399,7 +399,7 @@ class SourceMob(Mob):
         block_align = a.getblockalign()
         frames = a.getnframes()
 
-        edit_rate = edit_rate or sample_rate
+        edit_rate = AAFRational(edit_rate or sample_rate)
 
         # create essencedata
         essencedata, slot = self.create_essence(edit_rate, 'sound', offline=offline)
-- 
2.43.0


From d2805e9924bcdae12db425edfb8636f90b1253e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 56/72] fix: the length of a tape slot was rounded down to a
 frame less

---
 src/aaf2/mobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 29f640c..2e38e10 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -272,7 +272,7 @@ class SourceMob(Mob):
         self.descriptor = self.root.create.TapeDescriptor()
 
         slot = self.create_empty_slot(edit_rate, media_kind, slot_id=1)
-        slot.segment.length = int(float(AAFRational(edit_rate)) * 60 * 60 * 12)  # 12 hours
+        slot.segment.length = int(AAFRational(edit_rate) * 60 * 60 * 12)  # 12 hours
         timecode_slot = self.create_timecode_slot(edit_rate, timecode_fps, drop_frame, length)
 
         return slot, timecode_slot
-- 
2.43.0


From 0748cbf2f5405387556cd2663b34868e7ef5f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 57/72] fix: an AUID equal to a uuid.UUID had another hash

---
 src/aaf2/auid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/auid.py b/src/aaf2/auid.py
index f0922f6..90dc12f 100644
--- a/src/aaf2/auid.py
+++ b/src/aaf2/auid.py
@@ -101,7 +101,10 @@ class AUID(object):
         return self.bytes_le[8:]
 
     def __hash__(self):
-        return hash(bytes(self.bytes_le))
+        # an AUID is equal to a uuid.UUID, so it has its hash: that of the int
+        data1, data2, data3 = struct.unpack_from(str('<IHH'), self.bytes_le)
+        data4, = struct.unpack_from(str('>Q'), self.bytes_le, 8)
+        return hash(data1 << 96 | data2 << 80 | data3 << 64 | data4)
 
     def __eq__(self, other):
         if isinstance(other, (AUID, uuid.UUID)):
-- 
2.43.0


From b236a0fd738ea68773ad44179f5568b2a663eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 58/72] fix: text with spaces made an AUID of too few bytes

---
 src/aaf2/auid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/auid.py b/src/aaf2/auid.py
index 90dc12f..5eb82b8 100644
--- a/src/aaf2/auid.py
+++ b/src/aaf2/auid.py
@@ -18,6 +18,9 @@ class AUID(object):
             if len(hex) != 32:
                 raise ValueError('badly formed hexadecimal UUID string')
             b = bytearray.fromhex(hex)
+            # fromhex skips spaces
+            if len(b) != 16:
+                raise ValueError('badly formed hexadecimal UUID string')
             self.bytes_le = bytearray(b[4-1::-1] + b[6-1:4-1:-1] + b[8-1:6-1:-1] + b[8:])
         elif bytes_be is not None:
             self.bytes_be = bytes_be
-- 
2.43.0


From a0813abc8a46cba95f7b5ebdf23ea579aeff7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 59/72] fix: a MobID refusing a text took part of it, or took
 signs and spaces for digits

---
 src/aaf2/mobid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/mobid.py b/src/aaf2/mobid.py
index ee6ffe7..c5499ea 100644
--- a/src/aaf2/mobid.py
+++ b/src/aaf2/mobid.py
@@ -411,6 +411,10 @@ class MobID(object):
             s = s.replace(item, '')
         assert len(s) == 64
 
+        # check all of it before anything changes
+        if any(c not in '0123456789abcdef' for c in s):
+            raise ValueError('badly formed UMID: %s' % value)
+
         SMPTELabel = [0 for i in range(12)]
         start = 0
         for i in range(12):
-- 
2.43.0


From f85d0438e0ef69ec4358a8714d96e7759bb0575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 60/72] fix: MobID cut off an int that does not fit

---
 src/aaf2/mobid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/mobid.py b/src/aaf2/mobid.py
index c5499ea..11732e3 100644
--- a/src/aaf2/mobid.py
+++ b/src/aaf2/mobid.py
@@ -323,6 +323,8 @@ class MobID(object):
     @int.setter
     def int(self, value):
         # NOTE: interpreted as big endian
+        if not 0 <= value < 1 << 256:
+            raise ValueError('int is out of range (need a 256-bit value)')
         self.bytes_le = bytearray(bytes_from_int(value, 32, byte_order='big'))
 
     def __int__(self):
-- 
2.43.0


From ca9e2d57e44251409c65ef65ebff7d9e786d691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:38 +0000
Subject: [PATCH 61/72] fix: a MobID took part of a refused field or dict

---
 src/aaf2/mobid.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/aaf2/mobid.py b/src/aaf2/mobid.py
index 11732e3..db34c88 100644
--- a/src/aaf2/mobid.py
+++ b/src/aaf2/mobid.py
@@ -211,7 +211,7 @@ class MobID(object):
 
     @SMPTELabel.setter
     def SMPTELabel(self, value):
-        struct.pack_into(str('12B'), self.bytes_le, 0, *value)
+        self.bytes_le[0:12] = struct.pack(str('12B'), *value)
 
     @property
     def length(self):
@@ -251,7 +251,7 @@ class MobID(object):
 
     @Data1.setter
     def Data1(self, value):
-        struct.pack_into(str('<I'), self.bytes_le, 16, value)
+        self.bytes_le[16:20] = struct.pack(str('<I'), value)
 
     @property
     def Data2(self):
@@ -259,7 +259,7 @@ class MobID(object):
 
     @Data2.setter
     def Data2(self, value):
-        struct.pack_into(str('<H'), self.bytes_le, 20, value)
+        self.bytes_le[20:22] = struct.pack(str('<H'), value)
 
     @property
     def Data3(self):
@@ -267,7 +267,7 @@ class MobID(object):
 
     @Data3.setter
     def Data3(self, value):
-        struct.pack_into(str('<H'), self.bytes_le, 22, value)
+        self.bytes_le[22:24] = struct.pack(str('<H'), value)
 
     @property
     def Data4(self):
@@ -275,25 +275,28 @@ class MobID(object):
 
     @Data4.setter
     def Data4(self, value):
-        struct.pack_into(str('8B'), self.bytes_le, 24, *value)
+        self.bytes_le[24:32] = struct.pack(str('8B'), *value)
 
     def from_dict(self, d):
         """
         Set MobID from a dict
         """
-        self.length = d.get("length", 0)
-        self.instanceHigh = d.get("instanceHigh", 0)
-        self.instanceMid = d.get("instanceMid", 0)
-        self.instanceLow = d.get("instanceLow", 0)
+        # all of it or, if a value is refused, nothing
+        m = MobID()
+        m.length = d.get("length", 0)
+        m.instanceHigh = d.get("instanceHigh", 0)
+        m.instanceMid = d.get("instanceMid", 0)
+        m.instanceLow = d.get("instanceLow", 0)
 
         material = d.get("material", {'Data1':0, 'Data2':0, 'Data3':0, 'Data4': [0 for i in range(8)]})
 
-        self.Data1 = material.get('Data1', 0)
-        self.Data2 = material.get('Data2', 0)
-        self.Data3 = material.get('Data3', 0)
+        m.Data1 = material.get('Data1', 0)
+        m.Data2 = material.get('Data2', 0)
+        m.Data3 = material.get('Data3', 0)
 
-        self.Data4 = material.get("Data4", [0 for i in range(8)])
-        self.SMPTELabel = d.get("SMPTELabel", [0 for i in range(12)])
+        m.Data4 = material.get("Data4", [0 for i in range(8)])
+        m.SMPTELabel = d.get("SMPTELabel", [0 for i in range(12)])
+        self.bytes_le = m.bytes_le
 
     def to_dict(self):
         """
-- 
2.43.0


From 5720837f4c1330778a1096ed00ec99bd55c76dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:24 +0000
Subject: [PATCH 62/72] fix: a refused first value left an empty property that
 could not be copied or saved

---
 src/aaf2/misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 22f758a..8d2e2e9 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -97,8 +97,9 @@ class TaggedValue(core.AAFObject):
         if value_typedef is None:
             self.value = value
             return
+        data = self['Value'].typedef.encode(value, value_typedef)
         self['Value'].add_pid_entry()
-        self['Value'].data = self['Value'].typedef.encode(value, value_typedef)
+        self['Value'].data = data
         self['Value'].mark_modified()
 
     def __repr__(self):
@@ -196,10 +197,11 @@ class ConstantValue(Parameter):
 
     @value.setter
     def value(self, value):
-        self['Value'].add_pid_entry()
         indirect_typedef = self['Value'].typedef
         parameter_typdef = self.typedef
-        self['Value'].data = indirect_typedef.encode(value, parameter_typdef)
+        data = indirect_typedef.encode(value, parameter_typdef)
+        self['Value'].add_pid_entry()
+        self['Value'].data = data
         self['Value'].mark_modified()
 
 
-- 
2.43.0


From eb4afd7815600e6b6223ca9a84a2bff3a3235aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 63/72] fix: linking MXF files with MPEG-2 video failed

---
 src/aaf2/mxf.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index ee57fbd..3284db7 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -687,13 +687,6 @@ class MXFMPEG2VideoDescriptor(MXFCDCIDescriptor):
         # 060e2b34.04010103.04010202.01040300
         self.data['ResolutionID'] = 4076 #XDCAM HD 50Mbit
 
-        d['Length'].value = self.data.get('Length', 0)
-
-        # optional
-        for key in ('LinkedSlotID', ):
-            if key in self.data:
-                d[key].value = self.data[key]
-
         return super(MXFMPEG2VideoDescriptor, self).link()
 
 @register_mxf_class
-- 
2.43.0


From 4b841d6511f857d4e7835e21453dc5acadeb5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 64/72] fix: linking MXF files with negative positions or
 unknown durations failed

---
 src/aaf2/mxf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 3284db7..e6efaef 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -351,13 +351,13 @@ class MXFComponent(MXFObject):
             if tag == 0x1001:
                 self.data['Components'] = decode_strong_ref_array(f)
             elif tag == 0x1201:
-                self.data['StartTime'] = read_u64be(f)
+                self.data['StartTime'] = read_s64be(f)
             elif tag == 0x1102:
                 self.data['SourceMobSlotID'] = read_u32be(f)
             elif tag == 0x1101:
                 self.data['SourceID'] = decode_mob_id(data)
             elif tag == 0x0202:
-                self.data['Length'] = read_u64be(f)
+                self.data['Length'] = read_s64be(f)
             elif tag == 0x0201:
                 self.data['DataDef'] = decode_datadef(data)
             elif tag == 0x1503:
@@ -365,7 +365,7 @@ class MXFComponent(MXFObject):
             elif tag == 0x1502:
                 self.data['FPS'] = read_u16be(f)
             elif tag == 0x1501:
-                self.data['Start'] = read_u64be(f)
+                self.data['Start'] = read_s64be(f)
             elif tag == 0x0501:
                 self.data['Choices'] = decode_strong_ref_array(f)
             elif tag == 0x0502:
-- 
2.43.0


From 06ca3c3d40da45d87cfbefcb6f2df9cff9b4935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:41 +0000
Subject: [PATCH 65/72] fix: MXF headers with no KAG size failed, and could be
 cut short

---
 src/aaf2/mxf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index e6efaef..80ee8eb 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -916,6 +916,9 @@ class MXFFile(object):
         return mobs
 
     def round_to_kag(self, pos, kag_size):
+        # 0 is a valid size, for unknown
+        if kag_size == 0:
+            return pos
         ret = (pos // kag_size) * kag_size
         if ret == pos:
             return pos
@@ -923,6 +926,7 @@ class MXFFile(object):
 
 
     def read_header(self, f, length):
+        header_start = f.tell()
         major_version = read_u16be(f)
         minor_version = read_u16be(f)
         kag_size = read_u32be(f)
@@ -936,7 +940,7 @@ class MXFFile(object):
         body_sid = read_u32be(f)
         self.header_operation_pattern = read_auid_be(f)
 
-        self.header_partition_size = (self.round_to_kag(length, kag_size) +
+        self.header_partition_size = (header_start + self.round_to_kag(length, kag_size) +
                                       self.round_to_kag(header_byte_count, kag_size) +
                                       self.round_to_kag(index_byte_count, kag_size))
 
-- 
2.43.0


From c0c7b639f4b5b1718e31c03df16d654ebd8707cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:41 +0000
Subject: [PATCH 66/72] fix: a failed MXF link left a partial mob, that later
 links took for the whole

---
 src/aaf2/mxf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 80ee8eb..0b99259 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -249,7 +249,6 @@ class MXFPackage(MXFObject):
         mob = self.create_aaf_instance()
 
         mob.mob_id = self.mob_id
-        self.root.aaf.content.mobs.append(mob)
 
         name = self.data.get('Name', None)
         if name:
@@ -282,6 +281,7 @@ class MXFPackage(MXFObject):
             d = self.resolve_ref('Descriptor')
             mob.descriptor = d.link()
 
+        self.root.aaf.content.mobs.append(mob)
         return mob
 
 @register_mxf_class
-- 
2.43.0


From f988b95cf1b9be6473fbd1b639ae9bc8bff1533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:41 +0000
Subject: [PATCH 67/72] fix: linking media by a relative path failed

---
 src/aaf2/ama.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index 22a6e2f..9b4ff7a 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -94,8 +94,9 @@ def get_aifc_fmt(path):
                 return bytearray(b"FORM" + data_size + signature + chunkid + sizebuf + file.read(size))
 
 
-def create_network_locator(f, absolute_path):
+def create_network_locator(f, path):
     n = f.create.NetworkLocator()
+    absolute_path = os.path.abspath(path)
     if sys.version_info[0] < 3:
         import urllib
         n['URLString'].value = 'file://' + urllib.pathname2url(absolute_path)
-- 
2.43.0


From 9dec258382b012234025986d9540707ad3716a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:41 +0000
Subject: [PATCH 68/72] fix: linked sound files without a format made a file
 that cannot be saved

---
 src/aaf2/ama.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index 9b4ff7a..fafd7bf 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -174,20 +174,28 @@ class FormatInfo:
             return pix.length
 
     def create_wav_descriptor(self, f, path):
+        summary = get_wave_fmt(path)
+        if summary is None:
+            return None
+
         d = f.create.WAVEDescriptor()
         stream = self.first_sound_stream
         d['SampleRate'].value = stream.edit_rate
-        d['Summary'].value = get_wave_fmt(path)
+        d['Summary'].value = summary
         d['Length'].value = stream.length
         d['ContainerFormat'].value = f.dictionary.lookup_containerdef("AAF")
         d['Locator'].append(create_network_locator(f, path))
         return d
 
     def create_aifc_descriptor(self, f, path):
+        summary = get_aifc_fmt(path)
+        if summary is None:
+            return None
+
         d = f.create.AIFCDescriptor()
         stream = self.first_sound_stream
         d['SampleRate'].value = stream.edit_rate
-        d['Summary'].value = get_aifc_fmt(path)
+        d['Summary'].value = summary
         d['Length'].value = stream.length
         d['ContainerFormat'].value = f.dictionary.lookup_containerdef("AAF")
         d['Locator'].append(create_network_locator(f, path))
-- 
2.43.0


From aa0d2612240c47a30cd4a1eba9fa339d76c88391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:41 +0000
Subject: [PATCH 69/72] fix: linked sound with samples of 8 bits was described
 as 0 bits

---
 src/aaf2/audio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/audio.py b/src/aaf2/audio.py
index 62a3d43..f373290 100644
--- a/src/aaf2/audio.py
+++ b/src/aaf2/audio.py
@@ -20,6 +20,7 @@ pcm_profiles = {
 }
 
 audio_format_sizes = {
+'u8'    :  (8,  1),
 's16'   :  (16, 2),
 's32'   :  (32, 4),
 'flt'   :  (32, 4),
-- 
2.43.0


From dbebf581197cc3f413108d0a6728baafee115ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:13 +0000
Subject: [PATCH 70/72] fix: a failed media link left mobs without descriptions

---
 src/aaf2/ama.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index fafd7bf..b5833f9 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -442,7 +442,6 @@ def create_media_link(f, path, metadata):
                 sound_slot.segment.components.append(tape_source_clip)
                 # not setting PhysicalTrackNumber here because we didn't before
 
-        f.content.mobs.append(tape_mob)
         tape_mob.descriptor = f.create.ImportDescriptor()
 
         return tape_mob
@@ -466,7 +465,6 @@ def create_media_link(f, path, metadata):
         source_mob.name = name
 
         append_source_to_mob_as_new_slots(from_mob=tape_mob, to_mob=source_mob)
-        f.content.mobs.append(source_mob)
 
         return source_mob
 
@@ -476,8 +474,6 @@ def create_media_link(f, path, metadata):
 
         append_source_to_mob_as_new_slots(from_mob=source_mob, to_mob=master_mob)
 
-        f.content.mobs.append(master_mob)
-
         return master_mob
 
     def create_mobs(name, format_info):
@@ -508,4 +504,5 @@ def create_media_link(f, path, metadata):
 
     master_mob, source_mob, tape_mob = create_mobs(name, format_info)
     source_mob.descriptor = source_descriptor
+    f.content.mobs.extend([tape_mob, source_mob, master_mob])
     return master_mob, source_mob, tape_mob
-- 
2.43.0


From 2b055bb38db32928f4b62cc42ac63103012af5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:13 +0000
Subject: [PATCH 71/72] fix: linked media had slots for its first picture and
 sound streams only

---
 src/aaf2/ama.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index b5833f9..fe17a9b 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -120,13 +120,20 @@ class FormatInfo:
             yield StreamInfo(stream)
 
     @property
-    def first_sound_stream(self):
-        return next((stream for stream in self.streams if stream.is_sound), None)
+    def sound_streams(self):
+        return (stream for stream in self.streams if stream.is_sound)
+
+    @property
+    def picture_streams(self):
+        return (stream for stream in self.streams if stream.is_picture)
 
+    @property
+    def first_sound_stream(self):
+        return next(self.sound_streams, None)
 
     @property
     def first_picture_stream(self):
-        return next((stream for stream in self.streams if stream.is_picture), None)
+        return next(self.picture_streams, None)
 
     def create_descriptor(self, f, path):
         if self.metadata['format']['format_name'] in ('wav',):
@@ -424,16 +431,14 @@ def create_media_link(f, path, metadata):
     def tape_mob_for_format(name, format_info):
         tape_mob = f.create.SourceMob()
         tape_mob.name = name
-        picture = format_info.first_picture_stream
-        if picture is not None:
+        for picture in format_info.picture_streams:
             pix_slot = tape_mob.create_picture_slot(edit_rate=picture.edit_rate)
             pix_slot.segment.length = picture.length
             tape_source_clip = f.create.SourceClip(media_kind='picture')
             tape_source_clip.length = picture.length
             pix_slot.segment.components.append(tape_source_clip)
 
-        sound = format_info.first_sound_stream
-        if sound is not None:
+        for sound in format_info.sound_streams:
             for channel in range(sound.physical_track_count):
                 sound_slot = tape_mob.create_sound_slot(edit_rate=sound.edit_rate)
                 sound_slot.segment.length = sound.length
-- 
2.43.0


From 9599e30efd61edac1f0c6cd24d12fe269c259b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:17 +0000
Subject: [PATCH 72/72] fix: sequences of linked media had length 0

---
 src/aaf2/ama.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index fe17a9b..0f72bdd 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -460,6 +460,7 @@ def create_media_link(f, path, metadata):
                 to_slot = to_mob.create_empty_sequence_slot(edit_rate=from_slot.edit_rate,
                                                             media_kind=from_clip.media_kind)
                 to_slot.segment.components.append(from_clip)
+                to_slot.segment.length = from_clip.length
 
                 if slot_kind == 'Sound':
                     to_slot['PhysicalTrackNumber'].value = sound_physical_track
-- 
2.43.0

