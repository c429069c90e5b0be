From 9f2805db38d4ea6de458063c78de810dfc7e08dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 01/15] fix: solve_index of a zero-dimensional shape matches
 position 0 only

A fully indexed assignment to a COO, FlatCOO, CSR or DM array overwrote
every stored element because any position had the solution ().
---
 gcs/slice_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..a3110e7 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -336,6 +336,8 @@ def solve_index(pos, shape, strides, data=None):
 
       A t + I s = b       2*N equalities with N+1 slack variables s
     """
+    if not shape:
+        return () if pos == 0 else None
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
-- 
2.43.0


From 33d5bac296af9937f15751bb8f156176c65fbd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 02/15] fix: solve_index finds the index for strides in any
 axis order

For layouts other than row-major ones, for instance shape (4, 5) with
strides (1, 4), the solver missed existing solutions.
---
 gcs/slice_tools.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index a3110e7..0883d67 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -210,6 +210,22 @@ def init_diophantine(a, shape=None):
         d = a[0]
         return d, (1,), (), (), (), shape
 
+    if shape is not None:
+        # Restricting the solution to a hypercube requires that the
+        # coefficients are in the order of row-major strides. Axes of
+        # size 1 do not contribute to the solution.
+        order = sorted((i for i in range(len(a)) if shape[i] != 1),
+                       key=lambda i: -abs(a[i])) or [0]
+        if order != list(range(len(a))):
+            d, z0, zs, D, b, s = init_diophantine(tuple(a[i] for i in order),
+                                                  shape=tuple(shape[i] for i in order))
+
+            def restore(z):
+                z = dict(zip(order, z))
+                return tuple(z.get(i, 0) for i in range(len(a)))
+
+            return d, restore(z0), tuple(map(restore, zs)), D, b, s
+
     data = _init_diophantine(a)
 
     d, z0, zs = data[0][0], data[-1][-2], data[-1][-1]
-- 
2.43.0


From 2a3bab94c20b2ef60d0ede356b110ae78b9a1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 03/15] fix: DM slicing applies the reduced offset when fixing
 a reduced dimension

Fixing all the dimensions of a reduced dimension of a sliced DM array
selected elements of the unsliced array.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From b88da38a30816371655197bb313a98971ab395a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 04/15] fix: DM slicing does not copy compressed storage when
 no dimension is removed

Indexing COO, FlatCOO or CSR storage with a full slice makes a copy of
it, so writes to the DM slice were lost on the sliced array.
---
 gcs/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..dcca8af 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1122,5 +1122,7 @@ class DM(Storage):
         # storage data when the sliced array has the same
         # dimensionality (holds also for COO and CSR use cases) or
         # when the data storage uses strided storage format.
-        data = self.data[dindex] if dindex else self.data
+        data = self.data
+        if any(i is not None for i in dindex):
+            data = data[dindex]
         return DM(gshape, rdimensions, rstrides, roffset, data)
-- 
2.43.0


From 33b4c9bd70ceb78feb11c51e7a09ddfc5c47f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 05/15] fix: support empty slices and arrays with empty extents

Indexing an axis of size zero raised ZeroDivisionError, and slicing a
buffer without values, which is how arrays without stored elements are
converted to CSR, raised IndexError.
---
 gcs/slice_tools.py | 10 ++++++++--
 gcs/storage.py     | 12 +++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 0883d67..ddc911e 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -84,7 +84,7 @@ def apply_slices(slices, shape, strides):
             offset += stride * (s % size)
         elif isinstance(s, slice):
             s = reduced(s, size)
-            offset += stride * (s.start % size)
+            offset += stride * (s.start % size if size else 0)
             new_strides.append(stride * s.step)
             new_shape.append(nitems(s, size, reduce=False))
         elif s is None:  # None represents slice(None, None, None)
@@ -115,7 +115,7 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            offset += stride * (ind.start % size if size else 0)
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
@@ -206,6 +206,10 @@ def init_diophantine(a, shape=None):
     if len(a) == 0:
         return 1, (), (), (), (), None
 
+    if shape is not None and 0 in shape:
+        # no index exists
+        return 1, (0,) * len(a), (), (), (), shape
+
     if len(a) == 1:
         d = a[0]
         return d, (1,), (), (), (), shape
@@ -354,6 +358,8 @@ def solve_index(pos, shape, strides, data=None):
     """
     if not shape:
         return () if pos == 0 else None
+    if 0 in shape:
+        return  # no index exists
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
diff --git a/gcs/storage.py b/gcs/storage.py
index dcca8af..383ef06 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -560,14 +560,14 @@ class Buffer(Storage):
         if isinstance(index, slice):
             start = self.offset + index.start if index.start is not None else self.offset
             stop = self.offset + index.stop if index.stop is not None else self.offset + self.size
-            if start < 0 or start >= len(self.data):
+            if start < 0 or start > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} start position must be in'
-                    f' range({len(self.data)}), got {start}')
-            if stop <= 0 or stop > len(self.data):
+                    f' range({len(self.data)+1}), got {start}')
+            if stop < 0 or stop > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} stop position must be in '
-                    f'range(1, {len(self.data)+1}), got {stop}')
+                    f'range({len(self.data)+1}), got {stop}')
             s = slice(start, stop, index.step)
             s = slice_tools.reduced(s, len(self.data))
             if s.step != 1:
@@ -649,7 +649,9 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
-        return Strided(shape, strides, self.data[offset:])
+        # an empty slice addresses no data
+        data = self.data if 0 in shape else self.data[offset:]
+        return Strided(shape, strides, data)
 
 
 class COO(Storage):
-- 
2.43.0


From ffc1bce7dfb99f44578a056209c5f6b33d1dff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 06/15] fix: element-wise equality takes shapes and unspecified
 elements into account

Arrays of different shape with the same stored elements compared equal,
and a compressed array compared unequal to the same array in a dense
format because the latter enumerates its unspecified elements.
---
 gcs/storage.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 383ef06..7706f86 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -341,11 +341,21 @@ class Storage:
                 other = Strided.fromobject(other, unspecified=self.unspecified)
         for index, value in other.elements():
             d2[index] = value
-        if d1 != d2:
+        if tuple(self.shape) != tuple(other.shape):
+            return False
+        for index in d1.keys() | d2.keys():
+            # elements that are not stored are unspecified
+            v1 = d1.get(index, self.unspecified)
+            v2 = d2.get(index, other.unspecified)
+            if v1 is v2 or v1 == v2:
+                continue
+            if v1 == self.unspecified and v2 == other.unspecified:
+                continue
             print()
             print(f'{d1=}')
             print(f'{d2=}')
-        return d1 == d2
+            return False
+        return True
 
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
-- 
2.43.0


From 90e03b97eb0541089ac53bc7942738084214b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 07/15] fix: assigning a view of an array to an overlapping
 part of the array

For instance, s[:] = s[::-1] read elements that the assignment had
already overwritten.
---
 gcs/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index 7706f86..e3a2777 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -360,6 +360,9 @@ class Storage:
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
         shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
+        if isinstance(value, Storage):
+            # value may share data with self
+            value = value.copy()
         for value_index, data_pos in self.slice_indices_and_data_position(shape, strides, offset):
             self.data[data_pos] = get_value(value, value_index)
 
-- 
2.43.0


From 539aca48d63a937fd72919f3388f881b922fa2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 08/15] fix: raise IndexError on out of range integer indices

The indices were wrapped silently, in particular, iterating over an
array never stopped.
---
 gcs/slice_tools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index ddc911e..80d5c6d 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -127,11 +127,19 @@ def index_strided(index, shape, strides, offset=0):
     return tuple(new_shape), tuple(new_strides), offset
 
 
+def normalize_int(ind, size):
+    """Return integer index as a non-negative integer.
+    """
+    if not -size <= ind < size:
+        raise IndexError(f'index {ind} is out of range for axis with size {size}')
+    return ind % size
+
+
 def normalize_index(index, shape):
     """Reduce slice indices and normalize negative integer indices.
     """
     if isinstance(index, int):
-        return (index % shape[0],) + (None,) * (len(shape)-1)
+        return (normalize_int(index, shape[0]),) + (None,) * (len(shape)-1)
     elif isinstance(index, slice):
         return (reduced(index, shape[0]),) + (None,) * (len(shape)-1)
     elif index is None:
@@ -140,7 +148,7 @@ def normalize_index(index, shape):
     for i in range(len(index)):
         ind = index[i]
         if isinstance(ind, int):
-            new_index[i] = ind % shape[i]
+            new_index[i] = normalize_int(ind, shape[i])
         elif isinstance(ind, slice):
             new_index[i] = reduced(ind, shape[i])
         elif ind is None:
-- 
2.43.0


From 22f96036065e87d96e2b3d1a53777e55b39f999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 09/15] fix: versioneer works with Python 3.12

ConfigParser.readfp and SafeConfigParser were removed in Python 3.12.
---
 versioneer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 64fea1c..b6b1c76 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -339,9 +339,12 @@ def get_config_from_root(root):
     # configparser.NoOptionError (if it lacks "VCS="). See the docstring at
     # the top of versioneer.py for instructions on writing your setup.cfg .
     setup_cfg = os.path.join(root, "setup.cfg")
-    parser = configparser.SafeConfigParser()
+    parser = configparser.ConfigParser()
     with open(setup_cfg, "r") as f:
-        parser.readfp(f)
+        if hasattr(parser, "read_file"):
+            parser.read_file(f)
+        else:  # Python 2
+            parser.readfp(f)
     VCS = parser.get("versioneer", "VCS")  # mandatory
 
     def get(parser, name):
-- 
2.43.0


From 9227cd2d05e0b9c2d7e6b22e2aab857faf8ed72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 10/15] fix: equality of strided slices with negative strides
 compares all elements

For instance, the reversed views of [1, 2, 3] and [9, 2, 3] were equal
because their data buffers start from the last value.
---
 gcs/storage.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index e3a2777..8bc3ec6 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -634,6 +634,17 @@ class Strided(Storage):
     def _get_object_data(self):
         return self.shape, self.strides, self.data
 
+    def __eq__(self, other):
+        # The data buffer does not cover the elements of a slice with
+        # negative strides, so compare elements rather than buffers.
+        if isinstance(other, type(self)):
+            return self is other or (
+                self.shape == other.shape and self.strides == other.strides
+                and self.unspecified == other.unspecified
+                and ([self.data[pos] for _, pos in self.indices_and_data_position()]
+                     == [other.data[pos] for _, pos in other.indices_and_data_position()]))
+        return NotImplemented
+
     def copy(self, unspecified=DEFAULT):
         """Return a row-wise contiguous copy.
         """
-- 
2.43.0


From 18f29857eeaea54b6d81851ba54b076da42b3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 11/15] fix: taking a row or a column of a CSR array visits
 stored elements only

A one-dimensional slice of a CSR array enumerated the whole index space,
and failed with MemoryError when the number of columns is large.
---
 gcs/storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 8bc3ec6..8273350 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -697,7 +697,17 @@ class COO(Storage):
                     indices[i].append(index[i])
             indices = Strided.fromobject(indices)
             return cls(shape, indices, seq.data.copy())
-        # TODO: seq is CSR
+        if isinstance(seq, CSR) and (unspecified is DEFAULT and shape is None
+                                     and get_seq_index is None):
+            rows, cols, values = [], [], []
+            for (row, col), value in seq.elements():
+                if value == seq.unspecified:
+                    continue
+                rows.append(row)
+                cols.append(col)
+                values.append(value)
+            data = Buffer(len(values), 0, values, unspecified=seq.unspecified)
+            return cls(seq.shape, Strided.fromobject([rows, cols]), data)
         seq_unspecified = get_unspecified(seq)
         if unspecified is DEFAULT:
             unspecified = seq_unspecified
-- 
2.43.0


From f9c647f06c5be7ea04b66021b69e6ad07eb0bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 12/15] fix: extgcd does not recurse, so coefficients of any
 magnitude are solved

---
 gcs/slice_tools.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 80d5c6d..ef99115 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -160,11 +160,13 @@ def normalize_index(index, shape):
 
 
 def extgcd(a, b):
-    if a == 0:
-        return b, 0, 1
-    gcd, x1, y1 = extgcd(b % a, a)
-    x = y1 - (b//a) * x1
-    y = x1
+    quotients = []
+    while a != 0:
+        quotients.append(b // a)
+        a, b = b % a, a
+    gcd, x, y = b, 0, 1
+    for q in reversed(quotients):
+        x, y = y - q * x, x
     return gcd, x, y
 
 
-- 
2.43.0


From 5a65993cd8a12e8452728b4457e392941d14ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 13/15] fix: read the assigned sequence before writing, it may
 hold views of the target

---
 gcs/storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 8273350..38948de 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -360,11 +360,12 @@ class Storage:
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
         shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
-        if isinstance(value, Storage):
-            # value may share data with self
-            value = value.copy()
+        # value, or an array in it, may share data with self: read it all before writing
+        items = []
         for value_index, data_pos in self.slice_indices_and_data_position(shape, strides, offset):
-            self.data[data_pos] = get_value(value, value_index)
+            items.append((data_pos, get_value(value, value_index)))
+        for data_pos, item in items:
+            self.data[data_pos] = item
 
     def get_data_position(self, index):
         raise NotImplementedError(f'{type(self).__name__}.get_data_position')
-- 
2.43.0


From 4b85a495a8b42320823643967dcb44f173d0fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 14/15] fix: take the commit date from the last line, git may
 show signatures before it

---
 gcs/_version.py | 2 ++
 versioneer.py   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/gcs/_version.py b/gcs/_version.py
index 2c0692c..028da98 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -298,8 +298,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
+    # (only the last line, signatures may be shown before it)
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
                        cwd=root)[0].strip()
+    date = date.strip().splitlines()[-1]
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
diff --git a/versioneer.py b/versioneer.py
index b6b1c76..4065eda 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -721,8 +721,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
+    # (only the last line, signatures may be shown before it)
     date = run_command(GITS, ["show", "-s", "--format=%%ci", "HEAD"],
                        cwd=root)[0].strip()
+    date = date.strip().splitlines()[-1]
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
@@ -1113,8 +1115,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
+    # (only the last line, signatures may be shown before it)
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
                        cwd=root)[0].strip()
+    date = date.strip().splitlines()[-1]
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From f0e6ed3119a40113983917879740a3c8e549c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 15/15] fix: ask git about our own checkout, whatever
 repository the environment points to

---
 gcs/_version.py |  6 ++++++
 versioneer.py   | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/gcs/_version.py b/gcs/_version.py
index 028da98..38a9bcf 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -11,6 +11,7 @@
 """Git implementation of _version.py."""
 
 import errno
+import functools
 import os
 import re
 import subprocess
@@ -225,6 +226,11 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
+    # the environment may point to another repository, as in its hooks
+    env = dict((k, v) for k, v in os.environ.items()
+               if k not in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"))
+    run_command = functools.partial(run_command, env=env)
+
     out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                           hide_stderr=True)
     if rc != 0:
diff --git a/versioneer.py b/versioneer.py
index 4065eda..5c1740b 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -282,6 +282,7 @@ try:
 except ImportError:
     import ConfigParser as configparser
 import errno
+import functools
 import json
 import os
 import re
@@ -434,6 +435,7 @@ LONG_VERSION_PY['git'] = '''
 """Git implementation of _version.py."""
 
 import errno
+import functools
 import os
 import re
 import subprocess
@@ -648,6 +650,11 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
+    # the environment may point to another repository, as in its hooks
+    env = dict((k, v) for k, v in os.environ.items()
+               if k not in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"))
+    run_command = functools.partial(run_command, env=env)
+
     out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                           hide_stderr=True)
     if rc != 0:
@@ -1042,6 +1049,11 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
+    # the environment may point to another repository, as in its hooks
+    env = dict((k, v) for k, v in os.environ.items()
+               if k not in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"))
+    run_command = functools.partial(run_command, env=env)
+
     out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                           hide_stderr=True)
     if rc != 0:
-- 
2.43.0

