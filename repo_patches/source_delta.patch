From 959e0838205b366c296bb7e35ac3cd4fe6de80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 01/57] fix: copying a local symbolic link passed the bound
 method instead of its destination

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 99bb4a2..ac5b17f 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -171,7 +171,7 @@ class Path(fs.Path):
         dest = self._copy_move_prepare(dest, force=force)
         if self.islink and not follow:
             # just copy the link
-            dest.link(self.linkdest)
+            dest.link(self.linkdest())
         else:
             # TODO: missing option: expand softlinks when pointing outside
             #       the tree being copied.
-- 
2.43.0


From 632dff1fe983a9e050423f6fe454fe0107d4ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:15 +0000
Subject: [PATCH 02/57] fix: refuse to copy or move a path onto, below or over
 itself, or when it does not exist (force=True destroyed data)

---
 src/spectrocrunch/io/fs.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 42d3e0c..8689a6f 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -368,10 +368,15 @@ class Path(File):
     def _copy_move_prepare(self, dest, force=False, rename=False):
         """Called by `move` and `copy`"""
         dest = self.sibling(dest)
+        if not self.lexists:
+            raise Missing(self.location)
         if dest.isdir and not rename:
             dest = dest[self.name]
+        self._check_overlap(dest)
         if dest.exists:
             if force:
+                # Removing a link recursively removes its destination
+                self._check_overlap(dest.node())
                 dest.remove(recursive=True)
             else:
                 raise AlreadyExists(dest.location)
@@ -380,6 +385,16 @@ class Path(File):
             d.mkdir()
         return dest
 
+    def _check_overlap(self, dest):
+        """Refuse to copy or move a node onto itself, below itself or over one
+        of its parents
+        """
+        common = self.common(dest)
+        if common == self or common == dest:
+            raise FileSystemException(
+                "{} and {} overlap".format(repr(self.location), repr(dest.location))
+            )
+
     def _move_copyrenamedel(self, dest, rename=False):
         """Instead of move, do copy(temporary name) + rename + delete"""
         tmp = dest.parent.randomnode(prefix=dest.name)
-- 
2.43.0


From aa481742b9c9fe0b5d106d0aeddbae863f889cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:15 +0000
Subject: [PATCH 03/57] fix: HDF5 path predicates raised Missing instead of
 returning False for a file that does not exist

---
 src/spectrocrunch/io/h5fs.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index ec2d9bf..9004997 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -474,7 +474,7 @@ class Path(fs.Path):
         try:
             with self.h5open(mode="r") as f:
                 return self.path in f
-        except IOError:
+        except (IOError, fs.Missing):
             return False
 
     @property
@@ -483,7 +483,7 @@ class Path(fs.Path):
             with self.h5open(mode="r") as f:
                 node = f.get(self.path, default=None)
                 return isinstance(node, h5py.Group)
-        except IOError:
+        except (IOError, fs.Missing):
             return False
 
     @property
@@ -492,7 +492,7 @@ class Path(fs.Path):
             with self.h5open(mode="r") as f:
                 node = f.get(self.path, default=None)
                 return isinstance(node, h5py.Dataset)
-        except IOError:
+        except (IOError, fs.Missing):
             return False
 
     @property
@@ -691,11 +691,14 @@ class Path(fs.Path):
 
     @property
     def islink(self):
-        with self.h5open(mode="r") as f:
-            if is_link(f, self.path):
-                return True
-            else:
-                return is_reference(f, self.path)
+        try:
+            with self.h5open(mode="r") as f:
+                if is_link(f, self.path):
+                    return True
+                else:
+                    return is_reference(f, self.path)
+        except fs.Missing:
+            return False
 
     @property
     def is_internal_link(self):
-- 
2.43.0


From 91a4fb3e1fafc73d6b9615753a3a8eb6a9ef2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:04 +0000
Subject: [PATCH 04/57] fix: copying or moving over a link replaces the link
 only (a broken link was silently overwritten, the data of a valid one
 deleted)

---
 src/spectrocrunch/io/fs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 8689a6f..4041e0b 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -373,11 +373,10 @@ class Path(File):
         if dest.isdir and not rename:
             dest = dest[self.name]
         self._check_overlap(dest)
-        if dest.exists:
+        if dest.lexists:
             if force:
-                # Removing a link recursively removes its destination
-                self._check_overlap(dest.node())
-                dest.remove(recursive=True)
+                # Replace a link, not what it points to
+                dest.remove(recursive=not dest.islink)
             else:
                 raise AlreadyExists(dest.location)
         d = dest.parent
-- 
2.43.0


From 7aae073a7adb7f7a358625cfacda7f175c4b46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:04 +0000
Subject: [PATCH 05/57] fix: HDF5 paths: a broken link does exist as link and
 nothing exists below it

---
 src/spectrocrunch/io/h5fs.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 9004997..64820f4 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -95,6 +95,22 @@ def prepare_h5data(data, **kwargs):
         return data
 
 
+def path_exists(fileobj, path):
+    """Check whether path points to an HDF5 object
+
+    Args:
+        fileobj(File)
+        path(str)
+    Returns:
+        bool
+    """
+    try:
+        return path in fileobj
+    except RuntimeError:
+        # Broken link in one of the parents
+        return False
+
+
 def is_link(fileobj, path):
     """Check whether node is h5py.SoftLink or h5py.ExternalLink
 
@@ -464,7 +480,7 @@ class Path(fs.Path):
                     else:
                         return dest.exists
                 else:
-                    return self.path in f
+                    return path_exists(f, self.path)
         except (IOError, fs.FileSystemException):
             return False
 
@@ -473,7 +489,7 @@ class Path(fs.Path):
         # For links: link exists
         try:
             with self.h5open(mode="r") as f:
-                return self.path in f
+                return path_exists(f, self.path) or is_link(f, self.path)
         except (IOError, fs.Missing):
             return False
 
-- 
2.43.0


From 0ff45136605494100cfb89e52438ba916aecea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:04 +0000
Subject: [PATCH 06/57] fix: relinking after an HDF5 copy or move modified
 links outside the copied tree

---
 src/spectrocrunch/io/h5fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 64820f4..953f361 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -587,13 +587,14 @@ class Path(fs.Path):
         # that point to a destination below self (including self)
         if self.is_external_link:
             return
-        for path in self.listdir():
-            path._copymove_relink(source, dest)
         if self.islink:
             linkdest = self.linkdest()
             if source.common(linkdest) == source:
                 self.remove()
                 self.link(dest[source.relpath(linkdest.path)])
+        else:
+            for path in self.listdir():
+                path._copymove_relink(source, dest)
 
     def copy(self, dest, force=False, follow=False, dereference=False):
         with self.h5open() as fsource:
-- 
2.43.0


From 986fd39283485813b67b16977e11033e1de00e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 07/57] fix: inserting a new parameter node before a root or
 after any node did not work

---
 src/spectrocrunch/pipelines/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index f78d4c9..aee9be6 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -457,10 +457,10 @@ class Node(BaseNode):
     def insert_before(self, node=None, single=False, **kwargs):
         """Insert a node before this one"""
         newparent = None
-        if node is self.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if node is self.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         self.parent, keep = node, self.parent
@@ -471,10 +471,10 @@ class Node(BaseNode):
     def insert_after(self, node=None, single=False, **kwargs):
         """Insert a node after this one"""
         newparent = None
-        if self is node.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if self is node.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         for child in list(self.children):
-- 
2.43.0


From 40e39c953fb25bf879b8cc5785600beabb050afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 08/57] fix: querying whether a parameter is inherited raised
 TypeError/AttributeError

---
 src/spectrocrunch/pipelines/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index aee9be6..b4d45ea 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -21,7 +21,7 @@ class AnnotatedKey(object):
 
     @property
     def inherited(self):
-        return not self.local
+        return not self.localcontext
 
     def __repr__(self):
         if self.localcontext:
@@ -83,7 +83,7 @@ class BaseNode(collections.abc.MutableMapping):
 
     def fromdict(self, dic, override=True, recursive=False):
         if not override:
-            dic = {k: v for k, v in dic.items() if not self.inherited(k)}
+            dic = {k: v for k, v in dic.items() if not self.isinheritedkey(k)}
 
         if recursive:
             self.update_recursive(dic)
@@ -293,7 +293,7 @@ class BaseNode(collections.abc.MutableMapping):
         return any(key in m for m in self._maps())
 
     def isinheritedkey(self, key):
-        return any(key in m for m in self._maps()[1:])
+        return any(key in m for m in self._maps(withself=False))
 
     def islocalkey(self, key):
         return key in self._map()
-- 
2.43.0


From cd5395c758f4f7af3c1e7e8487048455b665508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:10 +0000
Subject: [PATCH 09/57] fix: parameters holding a mapping could not be stored
 (abstract reference class, exhausted key iterator)

---
 src/spectrocrunch/pipelines/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index b4d45ea..cd4d4b7 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -537,6 +537,10 @@ class SubNodeReference(BaseSubNode):
     def __init__(self):
         super(SubNodeReference, self).__init__()
 
+    @property
+    def name(self):
+        return self.subkeys[-1]
+
     @property
     def parent(self):
         if self.node is None:
@@ -587,7 +591,7 @@ class SubNodeReferenceUp(SubNodeReference):
             subkeys.append(node._key)
             node = node._direct_parent
         self._node = node
-        self._subkeys = reversed(subkeys)
+        self._subkeys = subkeys[::-1]
 
     @property
     def subnode(self):
-- 
2.43.0


From 8723bf215cd2a2a213ee2828f8a3413e6edae4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:39 +0000
Subject: [PATCH 10/57] fix: termination signal handlers were not restored when
 set-up or tear-down raised

---
 src/spectrocrunch/utils/signalhandling.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/utils/signalhandling.py b/src/spectrocrunch/utils/signalhandling.py
index 61ef022..fc0672c 100755
--- a/src/spectrocrunch/utils/signalhandling.py
+++ b/src/spectrocrunch/utils/signalhandling.py
@@ -81,16 +81,27 @@ class HandleTermination(object):
         self._needcleanup = True
         self._oldhandlers = replace_handlers(self._newhandler, termination_handlers())
         if self._setup is not None:
-            self._setup()
+            try:
+                self._setup()
+            except BaseException:
+                self._restore()  # __exit__ will not be called
+                raise
+
+    def _restore(self):
+        """Reset signal handlers (once)"""
+        if self._needcleanup:
+            self._needcleanup = False
+            restore_handlers(self._oldhandlers)
 
     def _cleanup(self, exc_type, exc_value, exc_traceback):
         """User tear-down and reset signal handlers"""
         ret = 0
         if self._needcleanup:
-            if self._teardown is not None:
-                ret = self._teardown(exc_type, exc_value, exc_traceback)
-            restore_handlers(self._oldhandlers)
-            self._needcleanup = False
+            try:
+                if self._teardown is not None:
+                    ret = self._teardown(exc_type, exc_value, exc_traceback)
+            finally:
+                self._restore()
         return ret
 
     def _newhandler(self, signum, frame):
-- 
2.43.0


From 6e1b4d14b3dfaa5f36a817849512503ab98329fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:43 +0000
Subject: [PATCH 11/57] fix: removing the only signal of an NXdata left it as
 default signal; sorting without signals failed

---
 src/spectrocrunch/io/h5fs.py |  7 +++----
 src/spectrocrunch/io/nxfs.py | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 953f361..96d997c 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -653,11 +653,10 @@ class Path(fs.Path):
     def pop_stat(self, key, default=None, follow=True):
         if not follow:
             raise ValueError("Hdf5 links do not have attributes themselves")
-        try:
-            with self.open(mode="r") as node:
-                return node.attrs.pop(instance.asunicode(key), default=default)
-        except fs.Missing:
+        if not self.exists:
             return default
+        with self.open() as node:
+            return node.attrs.pop(instance.asunicode(key), default)
 
     def update_stats(self, prepare_kwargs=None, **stats):
         with self.open() as node:
diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 29ca172..52548aa 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -791,7 +791,9 @@ class _NXdata(_NXPath):
     @property
     def signals(self):
         with self._verify():
-            yield self.signal
+            signal = self.signal
+            if signal is not None:
+                yield signal
             for signal in self.auxiliary_signals:
                 yield signal
 
@@ -913,17 +915,17 @@ class _NXdata(_NXPath):
         with self._verify():
             self[name].remove()
             with self.open():
-                signals = self.pop_stat("auxiliary_signals")
-                if signals is not None:
-                    if self.signal.name == name:
-                        aux = signals[:-1]
-                        if aux.size:
-                            self.update_stats(auxiliary_signals=aux)
-                        self.update_stats(signal=signals[-1])
+                aux = self.pop_stat("auxiliary_signals")
+                aux = [] if aux is None else aux.tolist()
+                if self.get_stat("signal", None) == name:
+                    if aux:
+                        self.update_stats(signal=aux.pop())
                     else:
-                        aux = [signal for signal in signals if signal != name]
-                        if aux:
-                            self.update_stats(auxiliary_signals=aux)
+                        self.pop_stat("signal")
+                else:
+                    aux = [signal for signal in aux if signal != name]
+                if aux:
+                    self.update_stats(auxiliary_signals=aux)
             self.updated()
 
     def sort_signals(self, other=None):
@@ -935,6 +937,8 @@ class _NXdata(_NXPath):
                     if sorted(other_signals) != signals:
                         return
                     signals = other_signals
+                if not signals:
+                    return
                 aux = signals[1:]
                 if aux:
                     self.update_stats(auxiliary_signals=aux)
-- 
2.43.0


From 7379dfe6571944e9e144d9f56b40a629f0cb0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 12/57] fix: keys of stored parameters which are not strings
 became strings (stored process not found again)

---
 src/spectrocrunch/patch/jsonpickle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/patch/jsonpickle.py b/src/spectrocrunch/patch/jsonpickle.py
index 05194a3..cd6c0fb 100755
--- a/src/spectrocrunch/patch/jsonpickle.py
+++ b/src/spectrocrunch/patch/jsonpickle.py
@@ -17,12 +17,12 @@ except NameError:
 
 def dumps(data, **kwargs):
     jsonpickle.set_encoder_options("json", **kwargs)
-    return jsonpickle.encode(data, keys=False)
+    return jsonpickle.encode(data, keys=True)
 
 
 def loads(data, **kwargs):
     jsonpickle.set_decoder_options("json", **kwargs)
-    return jsonpickle.decode(data, keys=False)
+    return jsonpickle.decode(data, keys=True)
 
 
 def flatten(data, **kwargs):
-- 
2.43.0


From e82cbae743e16c0324b162949918420b072e08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 13/57] fix: selecting the default plot failed for a group
 without signals

---
 src/spectrocrunch/process/nxutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/nxutils.py b/src/spectrocrunch/process/nxutils.py
index 24a2196..10f0604 100755
--- a/src/spectrocrunch/process/nxutils.py
+++ b/src/spectrocrunch/process/nxutils.py
@@ -4,8 +4,10 @@ def set_default(parent, default):
     nxdataselect = None
     for nxdata in it:
         if default is None:
-            default = nxdata.signal.name
-            nxdataselect = nxdata
+            signal = nxdata.signal
+            if signal is not None:
+                default = signal.name
+                nxdataselect = nxdata
         else:
             if nxdata.default_signal(default):
                 nxdataselect = nxdata
-- 
2.43.0


From eb884cd04244ed87cee8093d36c9e4789ea690c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 14/57] fix: an index with an Ellipsis that stands for no
 dimension was refused

---
 src/spectrocrunch/utils/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index f5e290c..1ea635d 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -639,13 +639,13 @@ def expand(index, ndim):
         index
     """
     if isinstance(index, tuple):
-        nindex = sum([i is not np.newaxis for i in index])
+        nindex = sum([i is not np.newaxis and i is not Ellipsis for i in index])
         if nindex > ndim:
             raise IndexError("invalid index")
 
         if Ellipsis in index:
             i = index.index(Ellipsis)
-            index = index[:i] + (slice(None),) * (ndim - nindex + 1) + index[i + 1 :]
+            index = index[:i] + (slice(None),) * (ndim - nindex) + index[i + 1 :]
         elif nindex != ndim:
             index = index + (slice(None),) * (ndim - nindex)
 
-- 
2.43.0


From d44ca6cbb22a67cf79554c05ebdc3458ff7fda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 15/57] fix: wrong elements when indexing a stack with a list
 and another dimension with booleans

---
 src/spectrocrunch/utils/indexing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index 1ea635d..c4b0c40 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -869,14 +869,14 @@ def decompose_listindexing(index, nlist):
     # Replace bool with int array
     index2 = list(index)
     for i, ind in enumerate(index2):
-        if instance.isboolsequence(index2):
-            index2[i] = np.where(index2)
+        if instance.isboolsequence(ind):
+            index2[i] = np.where(ind)[0].tolist()
 
     indexlist = [None] * nlist
     nindex = len(index)
     tpl = [0] * nindex
     for j in range(nlist):
-        for i, ind in enumerate(index):
+        for i, ind in enumerate(index2):
             if instance.islistgen(ind):
                 tpl[i] = ind[j]
             else:
-- 
2.43.0


From c207e236211a5347517902b5e45493f68216fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 16/57] fix: assigning a scalar to an index that reorders
 dimensions failed

---
 src/spectrocrunch/utils/indexing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index c4b0c40..16afaf6 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -1020,6 +1020,8 @@ def setitem(
     valueindex = not instance.isscalar(value) and axis is not None
     if valueindex:
         valueindex = [slice(None)] * len(shapeafter)
+    elif instance.isscalar(value):
+        valuesel = value
     else:
         valuesel = ops(value)
 
-- 
2.43.0


From 6b0366fbc0b4e6eed967710722e173631a1bdeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 17/57] fix: in-place arithmetic on a grid replaced the grid by
 None (division and single signals failed)

---
 src/spectrocrunch/process/h5regulargrid.py |  8 +++++++-
 src/spectrocrunch/process/regulargrid.py   | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index f37082a..1bf4834 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -132,6 +132,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="add",
             )
+        return self
 
     def __isub__(self, value):
         with self.open() as group:
@@ -149,6 +150,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="sub",
             )
+        return self
 
     def __imul__(self, value):
         with self.open() as group:
@@ -166,8 +168,9 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="mul",
             )
+        return self
 
-    def __idiv__(self, value):
+    def __itruediv__(self, value):
         with self.open() as group:
 
             def selector(signal):
@@ -183,6 +186,9 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="div",
             )
+        return self
+
+    __idiv__ = __itruediv__
 
     @property
     def dtype(self):
diff --git a/src/spectrocrunch/process/regulargrid.py b/src/spectrocrunch/process/regulargrid.py
index a57517a..4d32670 100755
--- a/src/spectrocrunch/process/regulargrid.py
+++ b/src/spectrocrunch/process/regulargrid.py
@@ -98,19 +98,25 @@ class RegularGrid(object):
 
     def __iadd__(self, value):
         with self.open() as data:
-            data += value
+            data[...] += value
+        return self
 
     def __isub__(self, value):
         with self.open() as data:
-            data -= value
+            data[...] -= value
+        return self
 
     def __imul__(self, value):
         with self.open() as data:
-            data *= value
+            data[...] *= value
+        return self
 
-    def __idiv__(self, value):
+    def __itruediv__(self, value):
         with self.open() as data:
-            data /= value
+            data[...] /= value
+        return self
+
+    __idiv__ = __itruediv__
 
     @property
     def dtype(self):
-- 
2.43.0


From 82275c13162e6cc9aac1ceb42ef89c676c73abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 18/57] fix: values of a grid with the signals along another
 dimension than the first

---
 src/spectrocrunch/process/h5regulargrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index 1bf4834..3c7fd25 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -200,7 +200,7 @@ class NXRegularGrid(RegularGrid):
         ret = np.empty(self.shape, dtype=self.dtype)
         for i, signal in enumerate(self.signals):
             with signal.open(mode="r") as dset:
-                ret[i] = dset[()]
+                ret[(slice(None),) * self.stackdim + (i,)] = dset[()]
                 # No longer works in h5py 3.1:
                 # dset.read_direct(ret, dest_sel=(i, Ellipsis))
         return ret
-- 
2.43.0


From 307c40e7e99f3945f52a3e91bc10d743c0c49f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 19/57] fix: a grid of signals with different types had the
 type of the first signal (values truncated)

---
 src/spectrocrunch/process/h5regulargrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index 3c7fd25..291a3f0 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -192,8 +192,8 @@ class NXRegularGrid(RegularGrid):
 
     @property
     def dtype(self):
-        with self.signals[0].open(mode="r") as dset:
-            return dset.dtype
+        with self.open_signals(mode="r") as dsets:
+            return np.result_type(*[dset.dtype for dset in dsets])
 
     @property
     def values(self):
-- 
2.43.0


From c0c5fb4b68467070360e6eef1c059fa6ec51ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 20/57] fix: slice-by-slice cropping failed when there is
 nothing to crop to

---
 src/spectrocrunch/process/nxcrop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/process/nxcrop.py b/src/spectrocrunch/process/nxcrop.py
index d3e8715..6a36436 100755
--- a/src/spectrocrunch/process/nxcrop.py
+++ b/src/spectrocrunch/process/nxcrop.py
@@ -32,6 +32,8 @@ class Task(nxregulargrid.Task):
 
     @property
     def signalout_shape(self):
+        if self.roi is None:
+            return self.signalin_shape
         return self.cropped_shape
 
     def _process_axes(self):
-- 
2.43.0


From 1042720e58a5003245062c8b421bfe6822830dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 21/57] fix: cropping and replacing NaN only worked for the
 np.nan object itself

---
 src/spectrocrunch/process/nxcrop.py    | 4 ++--
 src/spectrocrunch/process/nxreplace.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/nxcrop.py b/src/spectrocrunch/process/nxcrop.py
index 6a36436..9162367 100755
--- a/src/spectrocrunch/process/nxcrop.py
+++ b/src/spectrocrunch/process/nxcrop.py
@@ -66,12 +66,12 @@ class Task(nxregulargrid.Task):
             mask = np.ones(shape, dtype=bool)
             for i in range(refgrid.shape[self.signal_stackdim]):
                 img = refgrid[indexgen(i)]
-                if nanval is np.nan:
+                if np.isnan(nanval):
                     mask &= np.logical_not(np.isnan(img))
                 else:
                     mask &= img != nanval
         else:
-            if nanval is np.nan:
+            if np.isnan(nanval):
                 mask = np.isnan(refgrid.values).sum(axis=self.signal_stackdim) == 0
             else:
                 mask = (refgrid.values == nanval).sum(axis=self.signal_stackdim) == 0
diff --git a/src/spectrocrunch/process/nxreplace.py b/src/spectrocrunch/process/nxreplace.py
index 5462d9e..ccd13b8 100755
--- a/src/spectrocrunch/process/nxreplace.py
+++ b/src/spectrocrunch/process/nxreplace.py
@@ -10,7 +10,7 @@ class Task(nxregulargrid.Task):
     def _process_data(self, data):
         v1 = self.parameters["old"]
         v2 = self.parameters["new"]
-        if v1 is np.nan:
+        if np.isnan(v1):
             data[np.isnan(data)] = v2
         else:
             data[data == v1] = v2
-- 
2.43.0


From 1929f5b8f116242ab06e10542dea8206903619c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 22/57] fix: an expression of the signal itself only was not
 applied

---
 src/spectrocrunch/process/nxexpression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 208d880..bf6a8a6 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -32,7 +32,7 @@ class Task(nxregulargrid.Task):
         logger.info("Expression: {}".format(parameters["expression"]))
 
     def _process_data(self, data):
-        if self.variables:
+        if not self.copy_signal:
             variables = {"a": data}
             for name, path in self.variables.items():
                 with path.open(mode="r") as dset:
@@ -83,10 +83,12 @@ class Task(nxregulargrid.Task):
             return False
         elif self._copy(signal):
             self.variables = {}
+            self.copy_signal = True
             logger.info("copy {}".format(signal.name))
             return True
         else:
             logger.info("calculate {}".format(signal.name))
+            self.copy_signal = False
             # For example: 'xmap_icr':'var_c' -> 'var_c':.../detector00/xmap_icr
             self.variables = {}
             for oldname, newname in self.namemap.items():
-- 
2.43.0


From 9c42023146a76938db4ba974244c5fb9710326a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 23/57] fix: the fourth variable of an expression was replaced
 by the constant e

---
 src/spectrocrunch/process/nxexpression.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index bf6a8a6..c3ee585 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -157,7 +157,9 @@ class MathParser(object):
         ident = pyparsing.Word(
             pyparsing.alphas, pyparsing.alphas + pyparsing.nums + "_$"
         )
-        var = pyparsing.Literal("var_").suppress() + pyparsing.Word(pyparsing.alphas)
+        var = pyparsing.Combine(
+            pyparsing.Literal("var_") + pyparsing.Word(pyparsing.alphas)
+        )
 
         plus = pyparsing.Literal("+")
         minus = pyparsing.Literal("-")
@@ -247,13 +249,8 @@ class MathParser(object):
             op2 = self.evaluateStack(s)
             op1 = self.evaluateStack(s)
             return self.opn[op](op1, op2)
-        elif op.upper() == "PI":
-            return np.pi  # 3.1415926535
-        elif op.upper() == "E":
-            return np.e  # 2.718281828
-        elif op in self.fn:
-            return self.fn[op](self.evaluateStack(s))
-        elif op[0].isalpha():
+        elif op.startswith("var_"):
+            op = op[4:]
             if op in self.variables:
                 var = self.variables[op]
                 if isinstance(var, nxfs.Path):
@@ -267,6 +264,14 @@ class MathParser(object):
                 else:
                     return var
             return 0
+        elif op.upper() == "PI":
+            return np.pi  # 3.1415926535
+        elif op.upper() == "E":
+            return np.e  # 2.718281828
+        elif op in self.fn:
+            return self.fn[op](self.evaluateStack(s))
+        elif op[0].isalpha():
+            return 0
         else:
             return self.dtype(op)
 
-- 
2.43.0


From 31f6e68a219f11aa984845dee9b9bba47e4e1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 24/57] fix: replacing NaN in an expression changed every other
 use of the same variable

---
 src/spectrocrunch/process/nxexpression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index c3ee585..fa86ec2 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -238,8 +238,7 @@ class MathParser(object):
 
     @staticmethod
     def _fn_nan(a, v):
-        a[np.isnan(a)] = v
-        return a
+        return np.where(np.isnan(a), v, a)
 
     def evaluateStack(self, s):
         op = s.pop()
-- 
2.43.0


From 5737240e6c83547b07cc229ed1361ff9af7fcb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 25/57] fix: a local path with default mode x could overwrite
 files and not be read

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index ac5b17f..daaa118 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -70,7 +70,7 @@ class Path(fs.Path):
         elif defaultmode == "r+" and mode not in ["r", "r+"]:
             # deny new files
             mode = defaultmode
-        elif defaultmode in ["x", "x+"] and mode not in ["w", "w+"]:
+        elif defaultmode in ["x", "x+"] and mode not in ["r", "x", "x+"]:
             # allow new files (error when existing)
             mode = defaultmode
         elif defaultmode in ["w", "w+"] and mode not in ["r", "w", "w+"]:
-- 
2.43.0


From 104fd81b60fd09ec9e5ab24a895b506468f08446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 26/57] fix: reading or creating a node emptied HDF5 files with
 default mode w

---
 src/spectrocrunch/io/h5fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 96d997c..8566766 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -340,7 +340,8 @@ class h5Device(localfs.Path):
         #    logger.debug('Close '+msg)
 
     def _openparams_defaults(self, openparams):
-        super(h5Device, self)._openparams_defaults(openparams)
+        # Skip the restrictions of localfs.Path
+        super(localfs.Path, self)._openparams_defaults(openparams)
         defaultmode = self.openparams["mode"]
         mode = openparams["mode"]
 
@@ -415,7 +416,7 @@ class Path(fs.Path):
         #    traceback.print_stack()
 
         # Device access mode (will be further restricted by h5Device)
-        if defaultmode == "w":
+        if defaultmode == "w" and createparams["mode"] != "r":
             # Do not truncate device when opening files
             createparams["mode"] = "a"
 
-- 
2.43.0


From 86223134bb71b3992495d7e8f269e7775dd329e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 27/57] fix: opening an HDF5 group with mode w removed it and
 failed

---
 src/spectrocrunch/io/h5fs.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 8566766..bd543ff 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -439,11 +439,13 @@ class Path(fs.Path):
                     else:
                         if isinstance(node, h5py.Dataset):
                             raise fs.NotADirectory(self.location)
-                    try:
-                        del f[self.path]
-                    except KeyError:
-                        pass
-                    node = None
+                    if createparams:
+                        # Only when there is something to replace it
+                        try:
+                            del f[self.path]
+                        except KeyError:
+                            pass
+                        node = None
                 # r,r+,a: nothing to do
             if node:
                 if createparams:
-- 
2.43.0


From 7455163b3662f222a841ad308e9711d423aed240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 28/57] fix: HDF5 file whose name starts with the name of
 another one was taken for it

---
 src/spectrocrunch/io/fs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 4041e0b..76beee9 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -223,9 +223,12 @@ class Path(File):
                 if devicepath == strdevice:
                     devicepath = device
                 else:
-                    if path.startswith(strdevice):
+                    remainder = path[len(strdevice) :]
+                    if path.startswith(strdevice) and (
+                        not remainder or remainder.startswith((self.devsep, self.sep))
+                    ):
                         devicepath = device
-                        localpath = path[len(strdevice) :]
+                        localpath = remainder
                         if localpath.startswith(self.devsep):
                             localpath = localpath[len(self.devsep) :]
                     elif not localpath:
-- 
2.43.0


From 1cf3749a1e1872de0d1d4f79bd3060d135d47dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 29/57] fix: the name of a broken link was taken for a free
 name

---
 src/spectrocrunch/io/fs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 76beee9..7281f9a 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -746,7 +746,7 @@ class Path(File):
     def randomnode(self, prefix="", suffix="", **kwargs):
         """Non-existing node with random name"""
         path = self[prefix + utils.randomstring(**kwargs) + suffix]
-        while path.exists:
+        while path.lexists:
             path = self[prefix + utils.randomstring(**kwargs) + suffix]
         return path
 
@@ -770,7 +770,7 @@ class Path(File):
                     yield sub
 
     def nonexisting_name(self, name):
-        if name not in self:
+        if not self[name].lexists:
             return name
         m = re.match(r"^(.+)\((\d+)\)$", name)
         if m:
@@ -779,7 +779,7 @@ class Path(File):
         else:
             i = 1
         fmt = name + "({})"
-        while fmt.format(i) in self:
+        while self[fmt.format(i)].lexists:
             i += 1
         return fmt.format(i)
 
-- 
2.43.0


From eb59b84dec0b6a697d81a1db06b0f80df1c6dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 30/57] fix: stats of local paths below a file and get_stat of
 local paths failed

---
 src/spectrocrunch/io/fs.py      | 2 +-
 src/spectrocrunch/io/localfs.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 7281f9a..52f1df9 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -677,7 +677,7 @@ class Path(File):
 
     def get_stat(self, key, default=None, follow=True):
         try:
-            return self.stats(follow=follow).get(key, default=default)
+            return self.stats(follow=follow).get(key, default)
         except Missing:
             return default
 
diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index daaa118..387022d 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -209,8 +209,9 @@ class Path(fs.Path):
             else:
                 ret = os.lstat(self.path)
         except OSError as err:
-            if err.errno == errno.ENOENT:
+            if err.errno in (errno.ENOENT, errno.ENOTDIR):
                 raise fs.Missing(self.location)
+            raise
 
         ret = {k[3:]: getattr(ret, k) for k in dir(ret) if k.startswith("st_")}
 
-- 
2.43.0


From 75eb1f099cb02164cfd103fdf38b154c87526a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 31/57] fix: readonly returned nothing

---
 src/spectrocrunch/io/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 52f1df9..73e8b3e 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -259,7 +259,7 @@ class Path(File):
 
     def readonly(self, **kwargs):
         kwargs["mode"] = "r"
-        self.detach(**kwargs)
+        return self.detach(**kwargs)
 
     def sibling(self, path):
         if isinstance(path, Path):
-- 
2.43.0


From 9d544f7ff6c43d6d7bb945f26397c41e39ef116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 32/57] fix: stats of local paths failed on times in
 nanoseconds

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 387022d..631f109 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -216,7 +216,7 @@ class Path(fs.Path):
         ret = {k[3:]: getattr(ret, k) for k in dir(ret) if k.startswith("st_")}
 
         for k, v in ret.items():
-            if "time" in k:
+            if k.endswith("time"):
                 ret[k] = datetime.fromtimestamp(v)
 
         # ret['permissions'] = oct(ret.pop('mode') & 0o777)
-- 
2.43.0


From 3d75863b12ec4e3de9e2a1eec2ede9577ca5fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 33/57] fix: reading XIA data that fails left what is to be
 read changed

---
 src/spectrocrunch/io/xiaedf.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 56b1a69..a089c72 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -900,32 +900,40 @@ class xiadata(object):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlydata()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlystats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlystats()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlycounters(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlycounters()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_allstats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlyicrocr(False)
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_cache(self):
-- 
2.43.0


From 5b3b7cf7fa9ee616292d0aca506b460513878482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 34/57] fix: XIA line by number took files of other radices
 that start the same

---
 src/spectrocrunch/io/xiaedf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index a089c72..2dafdd4 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2394,6 +2394,7 @@ class xialine_number(xialine):
         """
 
         self._fileformat = os.path.join(path, xiaformat_line(radix, mapnum, linenum))
+        self._radix = radix
         self._datafiles = []
         self._statfile = None
 
@@ -2405,6 +2406,11 @@ class xialine_number(xialine):
     def search(self):
         """Find data and statistics files"""
         files = glob(self._fileformat.format("*"))
+        files = [
+            f
+            for f in files
+            if xianameparser.parse(f, throw=False).radix == self._radix
+        ]
         files.sort(key=xiasortkey)
 
         def valid(x):
-- 
2.43.0


From 751ada6511b11fa75fd28640c05daccb76b9a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 35/57] fix: normalizing XIA data by a number or a missing
 counter failed

---
 src/spectrocrunch/io/xiaedf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 2dafdd4..6c612dc 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2336,15 +2336,14 @@ class xiaimage(xiacompound):
             m = self._xiaconfig["norm"]["ctr"]
             try:
                 1 / m
-                # if instance.isnumber(m):
-                #    m = np.full(self.dshape[0:2],m)
             except TypeError:
                 logger.warning(
                     'No "{}" counter for {} (set normalization counter = 1)'.format(
                         m, self
                     )
                 )
-                m = 1  # np.ones(self.dshape[0:2])
+                m = 1
+            m = np.full(self.dshape[0:2], m)
         else:
             m = self._getedfimage(f)
 
-- 
2.43.0


From 0ee95c46d88ba46e8997dd7a45f096815481b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:53 +0000
Subject: [PATCH 36/57] fix: shape of XIA counters included those of skipped
 detectors

---
 src/spectrocrunch/io/xiaedf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 6c612dc..4f83f6b 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2213,7 +2213,8 @@ class xiaimage(xiacompound):
     @property
     def cshape(self):
         # nrow x ncol x nctrs x 1
-        files = self.ctrfilenames()
+        # nctrs: after skipping/including detectors
+        files = self.ctrfilenames_used()
         if files:
             s = self._getedfimage(files[0], cache=True).shape
             return s + (len(files), 1)
-- 
2.43.0


From e87ffc6def4a456206219b5ef00f054327fbe399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 37/57] fix: items of XIA compounds were read with the indexing
 and corrections of the compound

---
 src/spectrocrunch/io/xiaedf.py | 36 ++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 4f83f6b..4d88876 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -704,14 +704,18 @@ class xiadict(dict):
     def resetmaxlevel(self, maxlevel):
         self["maxlevel"] = 0
 
-    def setleveldatainfo(self):
-        """Set the levels at which to perform certain data processing or data retrieval"""
+    def setleveldatainfo(self, level):
+        """Set the levels at which to perform certain data processing or data retrieval
+
+        Args:
+            level(num): level at which the reading starts
+        """
         if self["freezeleveldatainfo"]:
             return
 
         if self["indexing"]["stats"]:
             # otherwise, stats will be retrieved twice
-            self["leveldatainfo"]["dt"] = self["maxlevel"]
+            self["leveldatainfo"]["dt"] = level
         else:
             # saves memory
             self["leveldatainfo"]["dt"] = 0
@@ -742,6 +746,10 @@ class cachedict(dict):
         if "levels" not in self:
             self["levels"] = dict()
 
+        if "readlevel" not in self:
+            # level at which the current reading started
+            self["readlevel"] = None
+
     def flush(self):
         self["imagehandles"] = cache.LimitedSizeDict(size_limit=20)
         self["levels"] = dict()
@@ -872,11 +880,14 @@ class xiadata(object):
 
     @property
     def _highestlevel(self):
-        return self._level == self._xiaconfig["maxlevel"]
+        level = self._cache["readlevel"]
+        if level is None:
+            level = self._xiaconfig["maxlevel"]
+        return self._level == level
 
     def thisleveldatainfo(self):
         if self._highestlevel:
-            self._xiaconfig.setleveldatainfo()
+            self._xiaconfig.setleveldatainfo(self._level)
 
         info = {
             "dt": self._xiaconfig["dtcor"]
@@ -937,9 +948,18 @@ class xiadata(object):
 
     @contextlib.contextmanager
     def env_cache(self):
-        if self._highestlevel:
-            self._cache.flush()
-        yield
+        if self._cache["readlevel"] is not None:
+            # called from a higher level
+            yield
+            return
+        # Reading starts here (can be an item of a compound)
+        self._cache.flush()
+        self._cache["readlevel"] = self._level
+        self._xiaconfig.freezeleveldatainfo(False)
+        try:
+            yield
+        finally:
+            self._cache["readlevel"] = None
 
     def _tracemsg(self, msg):
         logger.debug("{}{}".format(" " * self._level * 2, msg))
-- 
2.43.0


From 3829a5d29ffc6b3ce2dbde9c7195f56bb01bf355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 38/57] fix: saving XIA data without statistics or counters
 saved them nevertheless

---
 src/spectrocrunch/io/xiaedf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 4d88876..be4ea46 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1685,7 +1685,7 @@ class xiacompound(xiadata):
         else:
             nitems = data.shape[0]
         selfitems = self.getsaveitems(
-            nitems, copyctrs=ctrs is not None or ctrs is True, ctrnames=ctrnames
+            nitems, copyctrs=ctrs is not None and ctrs is not False, ctrnames=ctrnames
         )
 
         logger.debug("Saving {} ...".format(self))
@@ -1781,12 +1781,16 @@ class xiacompound(xiadata):
 
         if data.thislevelhasprocessing():
             # Items are not independent
-            if stats is not None or stats is True:
+            if stats is not None and stats is not False:
                 stats = data.allstats
-            if ctrs is not None or ctrs is True:
+            else:
+                stats = None
+            if ctrs is not None and ctrs is not False:
                 ctrs = data.counters[..., 0]
                 if not ctrnames:
                     ctrnames = data.counterbasenames()
+            else:
+                ctrs = None
             self._save_data(
                 selfitems,
                 data.data,
@@ -1816,7 +1820,7 @@ class xiacompound(xiadata):
                     )
                 else:
                     # selfitem: xiaimage, oitems[i]: xialine
-                    bctrsave = ctrs is not None or ctrs is True
+                    bctrsave = ctrs is not None and ctrs is not False
                     selfitem.save(oitems[i], xialabels=xialabels, stats=stats)
 
             if bctrsave:
@@ -2169,7 +2173,7 @@ class xialine(xiadata):
             #    with data.env_indexing_onlydata():
             #        self._save_data(data,xialabels=xialabels)
 
-            if stats is not None or stats is True:
+            if stats is not None and stats is not False:
                 self._save_stats(data.allstats)
         else:
             self._save_data(data, xialabels=xialabels)
-- 
2.43.0


From af15a7a7acd24d55618189a44d45a0f2807e2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 39/57] fix: statistics of XIA data were saved as those of the
 first detectors

---
 src/spectrocrunch/io/xiaedf.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index be4ea46..5e2a570 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2128,21 +2128,30 @@ class xialine(xiadata):
             img = fabio.edfimage.EdfImage(data=data[..., i], header=header)
             self._write(img, self._fileformat.format(xialabels[i]), makedir=i == 0)
 
-    def _save_stats(self, stats):
+    def _save_stats(self, stats, xialabels=None):
         """
         Args:
             stats(array): dimensions = nspec x nstats x ndet
+            xialabels(Optional(list)): len(xialabels) = ndet
 
         Returns:
             None
         """
+        detectors = list(range(stats.shape[2]))
+        if xialabels is not None and len(xialabels) == len(detectors):
+            # Detectors without a number do not have statistics
+            detectors = [xiadetector_tonumber(label) for label in xialabels]
+            ind = [i for i, det in enumerate(detectors) if det is not None]
+            if len(ind) != len(detectors):
+                stats = stats[..., ind]
+                detectors = [detectors[i] for i in ind]
         ndet = stats.shape[2]
         nstats = stats.shape[1] * ndet
         header = {
             "xdata": 3,
             "xcorr": 0,
             "xnb": ndet,
-            "xdet": " ".join(str(i) for i in range(ndet)),
+            "xdet": " ".join(str(det) for det in detectors),
         }
 
         tmp = stats.reshape((stats.shape[0], nstats))
@@ -2174,12 +2183,12 @@ class xialine(xiadata):
             #        self._save_data(data,xialabels=xialabels)
 
             if stats is not None and stats is not False:
-                self._save_stats(data.allstats)
+                self._save_stats(data.allstats, xialabels=xialabels)
         else:
             self._save_data(data, xialabels=xialabels)
 
             if stats is not None:
-                self._save_stats(stats)
+                self._save_stats(stats, xialabels=xialabels)
 
     def datafilenames(self):
         """
-- 
2.43.0


From af1a9585ee9e237dc6439173d6b9c63d841f3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 40/57] fix: saving XIA counters failed with skipped detectors
 and lost those of all but one detector

---
 src/spectrocrunch/io/xiaedf.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 5e2a570..4e6c3ed 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1788,7 +1788,7 @@ class xiacompound(xiadata):
             if ctrs is not None and ctrs is not False:
                 ctrs = data.counters[..., 0]
                 if not ctrnames:
-                    ctrnames = data.counterbasenames()
+                    ctrnames = data.counternames_used()
             else:
                 ctrs = None
             self._save_data(
@@ -1825,15 +1825,18 @@ class xiacompound(xiadata):
 
             if bctrsave:
                 ctrheaders = instance.asscalar(ctrheaders)
-                counters = data.counterbasenames()
+                counters = data.counternames_used()
+                basecounters = data.counterbasenames_used()
                 if not ctrnames:
                     ctrnames = counters
                 data = data.counters[..., 0]
                 # nctrs = data.shape[-1]
                 for k in ctrnames:
-                    try:
+                    if k in counters:
                         i = counters.index(k)
-                    except ValueError:
+                    elif k in basecounters:
+                        i = basecounters.index(k)
+                    else:
                         raise RuntimeError(
                             "Counter {} is not in the list of available counters: {}".format(
                                 k, counters
@@ -1918,6 +1921,20 @@ class xiacompound(xiadata):
         else:
             return []
 
+    def counterbasenames_used(self):
+        items = self.getitems()
+        if items:
+            return items[0].counterbasenames_used()
+        else:
+            return []
+
+    def counternames_used(self):
+        items = self.getitems()
+        if items:
+            return items[0].counternames_used()
+        else:
+            return []
+
 
 class xialine(xiadata):
     def __init__(self, **kwargs):
@@ -2325,6 +2342,12 @@ class xiaimage(xiacompound):
             self.search()
         return [xianameparser.parse(f).label for f in self._ctrfiles]
 
+    def counterbasenames_used(self):
+        return [xianameparser.parse(f).baselabel for f in self.ctrfilenames_used()]
+
+    def counternames_used(self):
+        return [xianameparser.parse(f).label for f in self.ctrfilenames_used()]
+
     def headers(self, **kwargs):
         return [self.header(**kwargs)]
 
-- 
2.43.0


From d23aca7829654f8f7117e3ddba1a0ac3def79f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 41/57] fix: overwriting an XIA map with counters kept looking
 at the files that were there before

---
 src/spectrocrunch/io/xiaedf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 4e6c3ed..18d2cdb 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -2644,9 +2644,7 @@ class xiaimage_number(xiaimage):
                 )
                 for linenum in range(nlines)
             ]
-            if copyctrs:
-                if ctrnames is None:
-                    ctrnames = self.counterbasenames()
+            if copyctrs and ctrnames:
                 self._ctrfiles = [self._ctrformat.format(k) for k in ctrnames]
                 self._ctrfiles.sort(key=xiasortkey)
 
-- 
2.43.0


From 30833cc02b10172df9cdf457072a3f5fe1826f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 42/57] fix: an alignment region without end missed the last
 row or column

---
 src/spectrocrunch/align/align.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 67bc140..dbefd8d 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -283,7 +283,7 @@ class align(object):
         CroiInv = self.defaulttransform(ttype=transformationType.translation)
         if self.pre_align["roi"] is not None:
             # cof raw to pre-align
-            ty, tx = self.pre_align["roi"][:][0]
+            (ty, _), (tx, _) = self.pre_align["roi"]
             # cof pre-align to raw
             CroiInv.settranslation(-tx, -ty)
         for prealign_to_raw, prealign_to_pretransform, pretransfo in zip(
@@ -820,22 +820,7 @@ class align(object):
             self.pre_align["roi"] = None
         else:
 
-            def bdefault(a):
-                if a is None:
-                    return 0
-                else:
-                    return a
-
-            def edefault(a):
-                if a is None:
-                    return -1
-                else:
-                    return a
-
-            self.pre_align["roi"] = (
-                (bdefault(roi[0][0]), edefault(roi[0][1])),
-                (bdefault(roi[1][0]), edefault(roi[1][1])),
-            )
+            self.pre_align["roi"] = cliproi(self.source.imgsize, roi)
         self.calccof_prealign_to_raw()
 
     def align(
-- 
2.43.0


From 92facf848bb7ec5b8d97018a402874ab950e4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 43/57] fix: pair-wise aligned reference images were only
 aligned on the image before

---
 src/spectrocrunch/align/align.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index dbefd8d..34b7609 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -799,6 +799,7 @@ class align(object):
                     usealignedimage = (
                         aligntype != alignType.usetransfo
                         and j == refdatasetindex
+                        and not (pairwise and self.alignonraw)
                         and self.nopre_align()
                         and self.nopre_transform(i)
                         and self.nopost_transform()
-- 
2.43.0


From 538bd2fb2ae67a5eb8c1b62b6a4295c8f473528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 44/57] fix: padding did not have priority over cropping when
 aligning on a fixed image

---
 src/spectrocrunch/align/align.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 34b7609..9be30a8 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -537,6 +537,7 @@ class align(object):
     def bextendfrommask(self, pairwise):
         return (
             self.post_transform_requested["crop"]
+            and not self.pre_transform_requested["pad"]
             and self.cval is np.nan
             and (
                 self.pre_align["roi"] is None
-- 
2.43.0


From bc21820a4e59b284e8821090b1b8ce6e38cfba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 45/57] fix: overwriting aligned HDF5 datasets failed when
 their name has an extension

---
 src/spectrocrunch/align/alignDest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index d16d9df..caa2cbf 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -108,7 +108,7 @@ class alignDest(object):
     def h5_datasetscheck(self, shape, dtype):
         return all(
             self.handle[self.h5_composesetname(self.dir, name)].shape == shape
-            and self.handle[name].dtype == dtype
+            and self.handle[self.h5_composesetname(self.dir, name)].dtype == dtype
             for name in self.names
         )
 
-- 
2.43.0


From 1f094286083fcf9decc19c981257e748194fe29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 46/57] fix: padded images lost the pixels next to the padding
 when shifted by whole pixels

---
 src/spectrocrunch/align/transform.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 172efd4..36d2e4c 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -65,9 +65,13 @@ class LinearMapping(Mapping):
             return img
         if self.transfotype == transformationType.translation:
             # shift: takes transformation vector for coordinates (y,x)
-            return shift(
-                img, -self.cof[1::-1], cval=self.cval, **self.interpolationargs
-            )
+            yxshift = -self.cof[1::-1]
+            interpolationargs = self.interpolationargs
+            if np.allclose(yxshift, np.rint(yxshift), rtol=0, atol=1e-4):
+                # interpolating whole pixels can only spread missing data
+                yxshift = np.rint(yxshift)
+                interpolationargs = dict(interpolationargs, order=0)
+            return shift(img, yxshift, cval=self.cval, **interpolationargs)
         else:
             if self.islinearidentity():
                 # shift: takes transformation vector for coordinates (y,x)
-- 
2.43.0


From 786b9c4d7645d337676843463adb67a46dff9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:27 +0000
Subject: [PATCH 47/57] fix: cropping aligned images without common pixels
 failed

---
 src/spectrocrunch/align/align.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 9be30a8..7981946 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -570,7 +570,7 @@ class align(object):
 
     def parsetransformation_beforeapplication(self, pairwise):
         """Adapt transformations before applying them"""
-        if self.bextendfrommask(pairwise):
+        if self.bextendfrommask(pairwise) and self._extendmask.any():
             self.extendfrommask()
         else:
             # Corners of the image in the transformed frame
-- 
2.43.0


From e51e82bb0a1d9407a677af89ddbbde531cf011b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 48/57] fix: converting the units of an axis changed the limits
 of the axis it was derived from

---
 src/spectrocrunch/process/axis.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index dd7b2fa..66a90f7 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -505,10 +505,11 @@ class _AxisRegular(Axis):
 
     @units.setter
     def units(self, value):
-        self.values.ito(value)
-        self.start.ito(value)
-        self.end.ito(value)
-        self.stepsize.ito(value)
+        # Do not convert in-place: limits may be shared with other axes
+        self._values = self._values.to(value)
+        self._start = self._start.to(value)
+        self._end = self._end.to(value)
+        self._stepsize = self._stepsize.to(value)
 
     def __repr__(self):
         return "{}(start={:~},end={:~},step={:~},size={})".format(
-- 
2.43.0


From 6b42108c0ac26849fc169507c63fc03db8b0c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 49/57] fix: changing the limits or step size of a regular axis
 added a value

---
 src/spectrocrunch/process/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 66a90f7..9f25c96 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -522,11 +522,11 @@ class AxisRegular(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.end, self.size
+        self.values = value, self.end, self.nsteps
 
     @_AxisRegular.end.setter
     def end(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
@@ -557,11 +557,11 @@ class AxisRegularInc(_AxisRegular):
 
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.stepsize, self.size
+        self.values = value, self.stepsize, self.nsteps
 
     @_AxisRegular.stepsize.setter
     def stepsize(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
-- 
2.43.0


From 1333e856f5957839b8998ecbb4fc6914983ba5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 50/57] fix: last step size of an axis with segments was the
 one of the second segment

---
 src/spectrocrunch/process/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 9f25c96..b548ee8 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -673,7 +673,7 @@ class AxisSegments(Axis):
 
     @property
     def end_stepsize(self):
-        return self.stepsizes[1]
+        return self.stepsizes[-1]
 
     @property
     def nsteps(self):
-- 
2.43.0


From 657a4e33983fffd7fec652107809cf703f0ce748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:48 +0000
Subject: [PATCH 51/57] fix: locating a list of quantities on an axis with
 units failed

---
 src/spectrocrunch/process/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index b548ee8..d88f90e 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -231,6 +231,8 @@ class Axis(object):
     def _extract_magnitude(self, values):
         if instance.isquantity(values):
             return units.umagnitude(values, units=self.units)
+        elif instance.isarraynot0(values) and any(map(instance.isquantity, values)):
+            return units.umagnitude(values, units=self.units)
         elif isinstance(values, Axis):
             return values.umagnitude(self.units)
         else:
-- 
2.43.0


From 0e7aac7aae0f5e99de93b5393e9680b1a283487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:48 +0000
Subject: [PATCH 52/57] fix: new limits of an axis with one value left or with
 different step sizes

---
 src/spectrocrunch/process/axis.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index d88f90e..1bff8c5 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -395,7 +395,13 @@ class Axis(object):
             add = oldstart - np.arange(1, nstepsadd + 1)[::-1] * stepsize
             x = np.append(add.magnitude, x)
         elif nstepsadd < 0:
-            x = x[-nstepsadd:]
+            # Drop what is not needed to include the new start
+            newstart = newstart.to(self.units).magnitude
+            stepsize = self.end_stepsize.to(self.units).magnitude
+            if (newstart - x[-1]) / stepsize >= 1:
+                return None
+            include = x <= newstart if stepsize > 0 else x >= newstart
+            x = x[max(np.count_nonzero(include) - 1, 0) :]
         if len(x):
             return self.factory(units.Quantity(x, units=self.units))
         else:
@@ -410,8 +416,10 @@ class Axis(object):
         Returns:
             Axis|None
         """
+        return self._newend(newend, self.start_stepsize, self.end_stepsize)
+
+    def _newend(self, newend, start_stepsize, stepsize):
         x = self.magnitude
-        stepsize = self.end_stepsize
         newend = units.Quantity(newend, units=self.units)
         oldend = self.end
         nstepsadd = (newend - oldend) / stepsize
@@ -420,7 +428,13 @@ class Axis(object):
             add = oldend + np.arange(1, nstepsadd + 1) * stepsize
             x = np.append(x, add.magnitude)
         elif nstepsadd < 0:
-            x = x[:nstepsadd]
+            # Drop what is not needed to include the new end
+            newend = newend.to(self.units).magnitude
+            stepsize = start_stepsize.to(self.units).magnitude
+            if (x[0] - newend) / stepsize >= 1:
+                return None
+            include = x >= newend if stepsize > 0 else x <= newend
+            x = x[: len(x) - max(np.count_nonzero(include) - 1, 0)]
         if len(x):
             return self.factory(units.Quantity(x, units=self.units))
         else:
@@ -438,7 +452,13 @@ class Axis(object):
         """
         axis = self.newstart(newstart)
         if axis is not None:
-            axis = axis.newend(newend)
+            # Cropping the start may leave only one value (no step size)
+            end_stepsize = self.end_stepsize.to(axis.units)
+            if axis.size > 1:
+                start_stepsize = axis.start_stepsize
+            else:
+                start_stepsize = end_stepsize
+            axis = axis._newend(newend, start_stepsize, end_stepsize)
         return axis
 
 
-- 
2.43.0


From 8cb42b7c8660d9facb1e6b1d6af3655ac9ccd9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:04 +0000
Subject: [PATCH 53/57] fix: converting the units of an axis with segments left
 its limits and step sizes behind

---
 src/spectrocrunch/process/axis.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 1bff8c5..29471c9 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -710,6 +710,17 @@ class AxisSegments(Axis):
         nsteps = np.asarray(nsteps).tolist() + [None]
         return tuple(list(listtools.flatten(zip(limits, nsteps)))[:-1])
 
+    @property
+    def units(self):
+        return self.values.units
+
+    @units.setter
+    def units(self, value):
+        # Do not convert in-place: limits may be shared with other axes
+        self._values = self._values.to(value)
+        self._limits = self._limits.to(value)
+        self._stepsizes = self._stepsizes.to(value)
+
     @property
     def nsegments(self):
         return len(self._nsteps)
-- 
2.43.0


From 408d2f088a8227be1e19a6dcac6ab5fcf7bfa98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:04 +0000
Subject: [PATCH 54/57] fix: edited values of an axis were lost when converting
 its units

---
 src/spectrocrunch/process/axis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index 29471c9..13e647a 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -55,6 +55,7 @@ class Axis(object):
         if self.type == "quantitative":
             values = units.Quantity(values, units=self.units)
             self.values[index] = values
+            self._params = self.values
         else:
             self.values.iloc[index] = values
 
-- 
2.43.0


From 828cf1008ee86612aca7b8ffa72354d3421f8d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 55/57] fix: resampling with a given encoder offset failed

---
 src/spectrocrunch/process/nxresample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spectrocrunch/process/nxresample.py b/src/spectrocrunch/process/nxresample.py
index 835c0a5..69b6e7b 100755
--- a/src/spectrocrunch/process/nxresample.py
+++ b/src/spectrocrunch/process/nxresample.py
@@ -198,6 +198,7 @@ class Task(nxregulargrid.Task):
         if offset is None:
             encoder = axis.factory(position.values * resolution)
         else:
+            offset = units.Quantity(offset, units="dimensionless")
             encoder = axis.factory(position.values * resolution + offset)
 
         crop = self.parameters["crop"]
-- 
2.43.0


From 806ced7523b1a73cebcd01e0c625e5cee92cab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 56/57] fix: resampling failed when cropping leaves nothing of
 a dimension

---
 src/spectrocrunch/process/nxresample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/process/nxresample.py b/src/spectrocrunch/process/nxresample.py
index 69b6e7b..3a761bc 100755
--- a/src/spectrocrunch/process/nxresample.py
+++ b/src/spectrocrunch/process/nxresample.py
@@ -70,6 +70,9 @@ class Task(nxregulargrid.Task):
                         encdict["resolution"],
                         offset=encdict.get("offset", None),
                     )
+                    if encoder is None:
+                        # nothing to resample on
+                        signal = None
             lst.append((ax, encoder, signal, offset))
         self.axes, self.encoders, self.encoder_signals, self.offsets = zip(*lst)
 
@@ -251,7 +254,7 @@ class Task(nxregulargrid.Task):
                         repr(position.name)
                     )
                 )
-                return position, None, offset
+                return position, None, offset.to("dimensionless").magnitude
             else:
                 position = self._new_axis(
                     (encoder.values - offset) / resolution, position
-- 
2.43.0


From 6408a82c7be052be33cca9d258ed613d49423b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:41 +0000
Subject: [PATCH 57/57] fix: numpy booleans and complex numbers without
 imaginary part did not hash as the number they are

---
 src/spectrocrunch/utils/hashing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/utils/hashing.py b/src/spectrocrunch/utils/hashing.py
index 274d0be..5197bb4 100755
--- a/src/spectrocrunch/utils/hashing.py
+++ b/src/spectrocrunch/utils/hashing.py
@@ -1,4 +1,5 @@
 import hashlib
+import numpy as np
 from ..patch import jsonpickle
 from ..utils import instance
 from ..utils import listtools
@@ -47,8 +48,10 @@ def calchash(x, _depth=0):
         x = [class_repr_to_hash(x)]
     elif instance.isstring(x):
         x = [classname_repr_to_hash("string"), string_repr_to_hash(x)]
-    elif instance.isnumber(x):
+    elif instance.isnumber(x) or isinstance(x, np.bool_):
         try:
+            if x.imag == 0:
+                x = x.real
             intx = int(x)
             if intx == x:
                 x = intx
-- 
2.43.0

