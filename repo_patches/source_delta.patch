From 24d7763c470bd03b8ffc87cbe31231702b9320c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 001/158] fix: selections from a JaggedArray whose stops are
 longer than its starts

The documentation allows stops to be longer than starts, but whole-array
validation, slicing, masking and conversion to offsets compared or indexed
the two arrays as if they had the same length.
---
 awkward0/array/jagged.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ff7bf52..0ebe097 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -291,7 +291,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self._stops[-1]], "JaggedArray.content"),
+                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
@@ -355,11 +355,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             self._valid()
             if self.offsetsaliased(self._starts, self._stops):
                 self._offsets = self._starts.base
-            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self._stops[:-1]):
-                if len(self._stops) == 0:
+            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]):
+                if len(self._starts) == 0:
                     return self.numpy.array([0], dtype=self.INDEXTYPE)
                 else:
-                    self._offsets = self.numpy.append(self._starts, self._stops[-1])
+                    self._offsets = self.numpy.append(self._starts, self.stops[-1])
             else:
                 raise ValueError("starts and stops are not compatible with a single offsets array")
         return self._offsets
@@ -412,7 +412,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._canuseoffset():
                 self._parents = self.offsets2parents(self.offsets)
             else:
-                self._parents = self.startsstops2parents(self._starts, self._stops)
+                self._parents = self.startsstops2parents(self._starts, self.stops)
         return self._parents
 
     @parents.setter
@@ -479,15 +479,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 if self.check_whole_valid:
                     self._validstartsstops(self._starts, self._stops)
-                nonempty = (self._starts != self._stops)
+                nonempty = (self._starts != self.stops)
                 starts = self._starts[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(starts) != 0 and starts.reshape(-1).max() >= len(self._content):
                         raise ValueError("maximum start ({0}) is at or beyond the length of the content ({1})".format(starts.reshape(-1).max(), len(self._content)))
-                stops = self._stops[nonempty].reshape(-1)
+                stops = self.stops[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
-                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(self._stops.reshape(-1).max(), len(self._content)))
+                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(stops.max(), len(self._content)))
 
             self._isvalid = True
 
@@ -568,7 +568,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     offsets = self.counts2offsets(self.counts.reshape(-1))
                     thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
                     thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._stops.shape
+                    thyself._stops.shape = self._starts.shape
 
                 head = head._tojagged(thyself._starts, thyself._stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
@@ -598,7 +598,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         else:
             starts = self._starts[head]
-            stops = self._stops[head]
+            stops = self.stops[head]
             if len(starts.shape) == len(stops.shape) == 0:
                 return self._content[starts:stops][tail]
             else:
@@ -1059,7 +1059,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_regular(self._content)
 
         if self._canuseoffset():
-            out = content[self._starts[0]:self._stops[-1]]
+            out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
@@ -1419,13 +1419,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self) == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self._stops[-1]]
+                return self._content[self._starts[0]:self.stops[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
                     out = self
                 else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
+                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
                 return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
 
     def structure1d(self, levellimit=None):
@@ -1633,7 +1633,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x._stops for x in arrays])
+        stops = cls.numpy.concatenate([x.stops for x in arrays])
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
-- 
2.43.0


From 310078f1bde39fb187f10780ed95d736a7bee3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 002/158] fix: second-dimension slices, masks and fancy indexes
 of JaggedArray

Negative fancy indexes raised AttributeError, masks read past the end of short
rows or failed to reshape, unsigned starts/stops wrapped in backward slices.
---
 awkward0/array/jagged.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0ebe097..4e471d6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -640,7 +640,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if len(node) == 0:
                     return node
 
-                counts = node.stops - node._starts
+                counts = (node.stops - node._starts).astype(self.INDEXTYPE)
                 step = 1 if head.step is None else head.step
 
                 if step == 0:
@@ -715,7 +715,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             stack.insert(0, node.counts)
                             node = node.flatten()
 
-                        index = self.numpy.tile(head, len(node))
+                        nrows = len(node)
+                        index = self.numpy.tile(head, nrows)
                         mask = (index < 0)
                         if mask.any():
                             pluscounts = (index.reshape(-1, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
@@ -728,7 +729,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             node._starts = node._starts.reshape(-1, len(head))
                             node._stops = node._stops.reshape(-1, len(head))
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape((nrows, len(head)) + node.shape[1:])
                         else:
                             raise NotImplementedError
 
@@ -738,10 +739,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     else:
                         if len(node) != len(head):
                             raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(len(node), len(head)))
-                        index = head.copy() if head is original_head else head
+                        index = self.numpy.array(head, dtype=self.INDEXTYPE)
                         mask = (index < 0)
                         if mask.any():
-                            index[mask] += head.counts
+                            index[mask] += node.counts[mask]
                         if (index < 0).any() or (index >= node.counts).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
                         index += node._starts
@@ -757,14 +758,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         if len(node) != 0 and not (node.counts == len(head)).all():
                             raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(len(head)))
                         head = self.numpy.nonzero(head)[0]
-                        index = self.numpy.tile(head, len(node))
-                        index = (index.reshape(-1, len(node)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        nrows = len(node)
+                        index = self.numpy.tile(head, nrows)
+                        index = (index.reshape(len(node), len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
                             node._starts = node._starts.reshape(-1, len(head))
                             node._stops = node._stops.reshape(-1, len(head))
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape((nrows, len(head)) + node.shape[1:])
                         else:
                             raise NotImplementedError
 
@@ -775,6 +777,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         index = self.numpy.nonzero(head)[0]
                         if len(node) != len(index):
                             raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(len(node), len(index)))
+                        if (index >= node.counts).any():
+                            raise IndexError("index in jagged subdimension is out of bounds")
                         index += node._starts
                         node = node._content[index]
 
-- 
2.43.0


From 96132a0c5ceb8bcc6515a22c265307b878fa863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 003/158] fix: jagged boolean masks on multidimensional, union
 or unreachable content

The mask was resized to the full shape of the content rather than its length,
a JaggedArray of only empty lists over empty content could not be realigned,
and offsets of only empty lists were validated against the content.
---
 awkward0/array/jagged.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 4e471d6..52eed66 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -473,7 +473,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if self.check_whole_valid:
                     if not (self._offsets[1:] >= self._offsets[:-1]).all():
                         raise ValueError("offsets must be monatonically increasing")
-                    if self._offsets.max() > len(self._content):
+                    if self._offsets[0] != self._offsets[-1] and self._offsets.max() > len(self._content):
                         raise ValueError("maximum offset {0} is beyond the length of the content ({1})".format(self._offsets.max(), len(self._content)))
 
             else:
@@ -570,7 +570,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     thyself._starts.shape = self._starts.shape
                     thyself._stops.shape = self._starts.shape
 
-                head = head._tojagged(thyself._starts, thyself._stops, copy=False)
+                head = head._tojagged(thyself._starts, thyself.stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
                 intheadsum = inthead.sum()
 
@@ -583,7 +583,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 headcontent[headcontent_indices_to_ignore] = False
 
                 original_headcontent_length = len(headcontent)
-                headcontent = self.numpy.resize(headcontent, thyself._content.shape)
+                headcontent = self.numpy.resize(headcontent, (len(thyself._content),))
                 headcontent[original_headcontent_length:] = False
 
                 return self.copy(starts=offsets[:-1].reshape(intheadsum.shape), stops=offsets[1:].reshape(intheadsum.shape), content=thyself._content[headcontent])
@@ -938,9 +938,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             good = (parents >= 0)
             increase = self.numpy.arange(len(parents), dtype=self.INDEXTYPE)
             increase[good] -= increase[starts[parents[good]]]
-            index = self._starts[parents]
-            index += increase
-            index *= good
+            if not good.any():
+                index = self.numpy.empty(0, dtype=self.INDEXTYPE)
+            else:
+                index = self._starts[parents].astype(self.INDEXTYPE)
+                index += increase
+                index *= good
             out = self.copy(starts=starts, stops=stops, content=self._content[index])
             out._parents = parents
             return out
-- 
2.43.0


From ce0945f9bca14a67b44d29678df4954a4988247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 004/158] fix: starts and stops interleaved in one buffer are
 not an offsets array

---
 awkward0/array/jagged.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 52eed66..10c7c4b 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -34,6 +34,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             stops_base = cls._util_toarray(stops.base, cls.INDEXTYPE)
         return (isinstance(starts, cls.numpy.ndarray) and isinstance(stops, cls.numpy.ndarray) and
                 starts_base is not None and stops_base is not None and starts_base is stops_base and
+                starts.strides == stops.strides == starts_base.strides and
                 starts.ctypes.data == starts_base.ctypes.data and
                 stops.ctypes.data == stops_base.ctypes.data + stops.dtype.itemsize and
                 len(starts) == len(starts_base) - 1 and
-- 
2.43.0


From de5a48024e4051bf85d723efe1624dcef8e0540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 005/158] fix: a UnionArray with no elements could not be made

---
 awkward0/array/union.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9a47d67..db88aca 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -103,7 +103,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @tags.setter
     def tags(self, value):
         value = self._util_toarray(value, self.TAGTYPE, self.numpy.ndarray)
-        tagsmax = value.max()
+        tagsmax = value.max() if value.size != 0 else 0
         if tagsmax <= self.numpy.iinfo(self.TAGTYPE).max:
             value = value.astype(self.TAGTYPE)
         elif tagsmax <= self.numpy.iinfo(self.numpy.uint8).max:
@@ -118,8 +118,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             raise ValueError("maximum tag must be at most {0}".format(self.numpy.iinfo(self.numpy.uint64).max))
 
         if self.check_prop_valid:
-            if len(value) == 0:
-                raise ValueError("tags must be non-empty")
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("tags must have integer dtype")
             if (value < 0).any():
-- 
2.43.0


From 8997fb787215593541f5b2b5eb757be3e4e75fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 006/158] fix: integer-array selections from a SparseArray with
 no stored elements or jagged content

---
 awkward0/array/indexed.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6c7b3ba..53f7a97 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -437,7 +437,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._default is None:
             if isinstance(self._content, awkward0.array.jagged.JaggedArray):
-                return self.JaggedArray([0], [0], self._content.content)
+                return self._content.content[:0]
             elif self._content.shape[1:] == ():
                 return self._content.dtype.type(0)
             else:
@@ -527,7 +527,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if head < 0:
                 head += self._length
             if not 0 <= head < self._length:
-                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, length))
+                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, self._length))
 
             match = self.numpy.searchsorted(self._index, head, side="left")
 
@@ -604,13 +604,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 mask = (head < 0)
                 if mask.any():
-                    head[mask] += self._length
+                    head = self.numpy.where(mask, head + self._length, head)
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
                 match = self.numpy.searchsorted(self._index, head, side="left")
-                match[match >= len(self._index)] = len(self._index) - 1
-                explicit = (self._index[match] == head)
+                explicit = (match < len(self._index))
+                explicit[explicit] = (self._index[match[explicit]] == head[explicit])
 
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
@@ -618,7 +618,10 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 index[explicit] = self.numpy.arange(self.numpy.count_nonzero(explicit))
 
                 content = self._content[match[explicit]]
-                default = self.numpy.array([self.default])
+                if self._default is None and isinstance(self._content, self.JaggedArray):
+                    default = self.JaggedArray([0], [0], self._content.content)
+                else:
+                    default = self.numpy.array([self.default])
                 return self.UnionArray(tags, index, [default, content])[tail]
 
             else:
-- 
2.43.0


From 33c05fcbc8c910709ffedb061bfae6924e34357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 007/158] fix: selections of a SparseArray by a sparse mask,
 and its own boolmask when nothing is stored

---
 awkward0/array/indexed.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 53f7a97..ae84f83 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -522,6 +522,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             where = (where,)
         head, tail = where[0], where[1:]
 
+        if isinstance(head, SparseArray) and issubclass(head.dtype.type, (self.numpy.bool_, self.numpy.bool)) and head.default:
+            head = head.dense
+
         if self._util_isinteger(head):
             original_head = head
             if head < 0:
@@ -563,7 +566,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 mask[remainder != 0] = False
 
             index = index[mask]
-            content = self._content[mask]
+            content = self._content[:len(self._index)][mask]
             if step < 0:
                 index = index[::-1]
                 content = content[::-1]
@@ -575,23 +578,14 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._length != head._length:
                 raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(self._length, head._length))
 
-            # the new index is a cumsum (starting at zero) of the boolean values
-            index = self.numpy.cumsum(head._content)
-            length = index[-1]
-            index[1:] = index[:-1]
-            index[0] = 0
-
-            # find my sparse elements in the mask's sparse elements
-            match1 = self.numpy.searchsorted(head._index, self._index, side="left")
-            match1[match1 >= len(head._index)] = len(head._index) - 1
-            content = self._content[self.numpy.logical_and(head._index[match1] == self._index, head._content[match1])]
-
-            # find the mask's sparse elements in my sparse elements
-            match2 = self.numpy.searchsorted(self._index, head._index, side="left")
-            match2[match2 >= len(head._index)] = len(head._index) - 1
-            index = index[self.numpy.logical_and(self._index[match2] == head._index, head._content)]
+            # the logical positions that are kept, and where my sparse elements are among them
+            keep = head._index[head._content[:len(head._index)]]
+            keep = keep[keep < self._length]
+            index = self.numpy.searchsorted(keep, self._index, side="left")
+            mask = (index < len(keep))
+            mask[mask] = (keep[index[mask]] == self._index[mask])
 
-            return self.copy(length=length, index=index, content=content)
+            return self.copy(length=len(keep), index=index[mask], content=self._content[:len(self._index)][mask])[tail]
 
         else:
             head = self._util_toarray(head, self.INDEXTYPE)
@@ -652,7 +646,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if len(self._index) == 0:
-            return self.numpy.empty(0, dtype=self.numpy.bool_)
+            return self.numpy.full(self._length, not maskedwhen, dtype=self.numpy.bool_)
 
         if maskedwhen:
             return self._index[self._getinverse()] == self.numpy.arange(self._length, dtype=self.INDEXTYPE)
-- 
2.43.0


From 7e85b47b26e821db7b737458ad203fe4a0309f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 008/158] fix: negative and out-of-range indexes of a
 BitMaskedArray

---
 awkward0/array/masked.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 38cfaf0..6abbe4d 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -613,6 +613,11 @@ class BitMaskedArray(MaskedArray):
 
     def _maskwhere(self, where):
         if self._util_isinteger(where):
+            original_where = where
+            if where < 0:
+                where = where + len(self)
+            if not 0 <= where < len(self):
+                raise IndexError("index {0} is out of bounds for size {1}".format(original_where, len(self)))
             bytepos, bitmask = self._maskat(where)
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
@@ -623,6 +628,9 @@ class BitMaskedArray(MaskedArray):
         else:
             where = self.numpy.array(where, copy=False)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
+                where = self.numpy.where(where < 0, where + len(self), where)
+                if (where < 0).any() or (where >= len(self)).any():
+                    raise IndexError("indexes out of bounds for size {0}".format(len(self)))
                 byteposes, bitmasks = self._maskat(where)
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
                 return bitmasks.astype(self.numpy.bool_)
-- 
2.43.0


From 7b21f13af6df2bedf9b2b42ff7a7c210a51642f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 009/158] fix: BitMaskedArray.fromcontent with maskedwhen=False
 marked most elements as missing

---
 awkward0/array/masked.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 6abbe4d..e013df3 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -441,7 +441,7 @@ class BitMaskedArray(MaskedArray):
         if maskedwhen:
             mask = cls.numpy.zeros(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
         else:
-            mask = cls.numpy.ones(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
+            mask = cls.numpy.full(cls._ceildiv8(len(content)), 255, dtype=cls.BITMASKTYPE)
         return cls(mask, content, maskedwhen=maskedwhen, lsborder=lsborder)
 
     @classmethod
@@ -510,7 +510,7 @@ class BitMaskedArray(MaskedArray):
             # maybe pad the length for reshape
             length = cls._ceildiv8(len(boolmask)) * 8
             if length != len(boolmask):
-                out = cls.numpy.empty(length, dtype=boolmask.dtype)
+                out = cls.numpy.zeros(length, dtype=boolmask.dtype)
                 out[:len(boolmask)] = boolmask
             else:
                 out = boolmask
-- 
2.43.0


From 46769eb6f518ba64946b577489abbdd920dcb552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 010/158] fix: parents2startsstops and fromparents ignored
 length and failed without children

---
 awkward0/array/jagged.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 10c7c4b..a2d28eb 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -73,17 +73,27 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def parents2startsstops(cls, parents, length=None):
-        # FIXME for 1.0: use length to add empty lists at the end of the jagged array or truncate
+        # length adds empty lists at the end of the jagged array or truncates it
         # assumes that children are contiguous, but not necessarily in order or fully covering (allows empty lists)
+        if length is not None and length < 0:
+            raise ValueError("length must be a non-negative integer")
+        fulllength = max(0, parents.max() + 1) if len(parents) > 0 else 0
+        if length is None:
+            length = fulllength
+        elif length > fulllength:
+            fulllength = length
+        if len(parents) == 0:
+            starts = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+            return starts, starts.copy()
+
         tmp = cls.numpy.nonzero(parents[1:] != parents[:-1])[0] + 1
         changes = cls.numpy.empty(len(tmp) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         changes[0] = 0
         changes[-1] = len(parents)
         changes[1:-1] = tmp
 
-        length = parents.max() + 1 if len(parents) > 0 else 0
-        starts = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
-        counts = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+        starts = cls.numpy.zeros(fulllength, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+        counts = cls.numpy.zeros(fulllength, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
 
         where = parents[changes[:-1]]
         real = (where >= 0)
@@ -91,7 +101,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         starts[where[real]] = (changes[:-1])[real]
         counts[where[real]] = (changes[1:] - changes[:-1])[real]
 
-        return starts, starts + counts
+        return starts[:length], (starts + counts)[:length]
 
     @classmethod
     def uniques2offsetsparents(cls, uniques):
-- 
2.43.0


From 71c0716fec3f4f8716611984ddc05d2ad6ab5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 011/158] fix: startsstops2parents of no lists

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index a2d28eb..af1ce23 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -60,7 +60,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         starts = starts.reshape(-1)  # flatten in case multi-d jagged
         stops = stops.reshape(-1)
         dtype = cls.JaggedArray.fget(None).INDEXTYPE
-        out = cls.numpy.full(stops.max(), -1, dtype=dtype)
+        out = cls.numpy.full(stops.max() if len(stops) != 0 else 0, -1, dtype=dtype)
         indices = cls.numpy.arange(len(starts), dtype=dtype)
         counts = stops - starts
         parents = cls.numpy.repeat(indices, awkward0.util.windows_safe(counts))
-- 
2.43.0


From d317aa56c5f5f9f6b209ba6855e4fb620be7c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 012/158] fix: offsets2parents of unsigned 64-bit offsets

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index af1ce23..3b586de 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -50,7 +50,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def offsets2parents(cls, offsets):
         dtype = cls.JaggedArray.fget(None).INDEXTYPE
-        counts = cls.numpy.diff(cls.numpy.r_[dtype.type(0), offsets])  # numpy >= 1.16: diff prepend
+        counts = cls.numpy.diff(cls.numpy.r_[dtype.type(0), offsets].astype(dtype))  # numpy >= 1.16: diff prepend
         indices = cls.numpy.arange(-1, len(offsets) - 1, dtype=dtype)
         return cls.numpy.repeat(indices, awkward0.util.windows_safe(counts))
 
-- 
2.43.0


From 4bd7dc05a064476a3d10af00c40b4e0fa2205280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 013/158] fix: JaggedArray.fromregular of an array with a
 zero-length dimension

---
 awkward0/array/jagged.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3b586de..45b319b 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -239,8 +239,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(shape) <= 1:
             raise ValueError("regular array must have more than one dimension")
         out = regular.reshape(-1)
-        for x in shape[:0:-1]:
-            out = cls.fromfolding(out, x)
+        for i in range(len(shape) - 1, 0, -1):
+            length = functools.reduce(operator.mul, shape[:i], 1)
+            out = cls.fromcounts(cls.numpy.full(length, shape[i], dtype=cls.INDEXTYPE), out)
         return out
 
     @classmethod
-- 
2.43.0


From 47e1f4e9318ccb148e9eaea48f0d405e8ef203eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 014/158] fix: fromlocalindex silently dropped elements before
 the first zero

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 45b319b..63dea26 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -215,6 +215,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("localindex array must be one-dimensional with the same length as content")
 
         if validate:
+            if len(index) != 0 and index[0] != 0:
+                raise ValueError("the first localindex must be zero")
             if not ((index[1:] - index[:-1])[(index != 0)[1:]] == 1).all():
                 raise ValueError("every localindex that is not zero must be one greater than the previous")
 
-- 
2.43.0


From 0d5e52559f0da40b7d0c4465db675a40e6c78e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 015/158] fix: JaggedArray.fromuniques of nothing made one
 empty list

---
 awkward0/array/jagged.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 63dea26..38e41d7 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -107,6 +107,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def uniques2offsetsparents(cls, uniques):
         # assumes that children are contiguous, in order, and fully covering (can't have empty lists)
         # values are ignored, apart from uniqueness
+        if len(uniques) == 0:
+            return cls.numpy.zeros(1, dtype=cls.JaggedArray.fget(None).INDEXTYPE), cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+
         changes = cls.numpy.nonzero(uniques[1:] != uniques[:-1])[0] + 1
 
         offsets = cls.numpy.empty(len(changes) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
-- 
2.43.0


From 3fb38d4b64d81a486eb3f69a008db9f85cb2d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 016/158] fix: flatten showed unreachable content when starts
 are multidimensional

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 38e41d7..36be49a 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1450,7 +1450,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     out = self
                 else:
                     out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
-                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
+                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content[:offsets[-1]]
 
     def structure1d(self, levellimit=None):
         if len(self._starts) > len(self._stops):
-- 
2.43.0


From bd399e045469840cb6dd6113139414d1b07746da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 017/158] fix: fromparents with a truncating length kept
 parents beyond it

---
 awkward0/array/jagged.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 36be49a..a007067 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -188,7 +188,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("parents array must be one-dimensional with the same length as content")
         starts, stops = cls.parents2startsstops(parents, length=length)
         out = cls(starts, stops, content)
-        out._parents = parents
+        if length is None or (parents < length).all():
+            out._parents = parents
         return out
 
     @classmethod
-- 
2.43.0


From 03c9f86f1aaabd7d24a2d3678b92992bf8ea27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 018/158] fix: JaggedArrays with unsigned 64-bit structure
 could not be indexed or reduced

---
 awkward0/array/jagged.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index a007067..ad0193b 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -40,6 +40,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 len(starts) == len(starts_base) - 1 and
                 len(stops) == len(stops_base) - 1)
 
+    @classmethod
+    def _index64(cls, array):
+        # Numpy promotes uint64 with any signed integer to float64, which can't be used as an index
+        if array.dtype == cls.numpy.dtype(cls.numpy.uint64):
+            return array.astype(cls.JaggedArray.fget(None).INDEXTYPE)
+        else:
+            return array
+
     @classmethod
     def counts2offsets(cls, counts):
         offsets = cls.numpy.empty(len(counts) + 1, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
@@ -124,7 +132,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return offsets, parents
 
     def __init__(self, starts, stops, content):
-        if self.offsetsaliased(starts, stops):
+        if self.offsetsaliased(starts, stops) and self._index64(starts) is starts:
             self.content = content
             self._starts, self._stops = starts, stops
             self._offsets = starts.base
@@ -168,7 +176,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def fromcounts(cls, counts, content):
-        counts = cls._util_toarray(counts, cls.INDEXTYPE, cls.numpy.ndarray)
+        counts = cls._index64(cls._util_toarray(counts, cls.INDEXTYPE, cls.numpy.ndarray))
         if not cls._util_isintegertype(counts.dtype.type):
             raise TypeError("counts must have integer dtype")
         if (counts < 0).any():
@@ -181,7 +189,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def fromparents(cls, parents, content, length=None):
-        parents = cls._util_toarray(parents, cls.INDEXTYPE, cls.numpy.ndarray)
+        parents = cls._index64(cls._util_toarray(parents, cls.INDEXTYPE, cls.numpy.ndarray))
         if not cls._util_isintegertype(parents.dtype.type):
             raise TypeError("parents must have integer dtype")
         if len(parents.shape) != 1 or len(parents) != len(content):
@@ -325,7 +333,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @starts.setter
     def starts(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._index64(self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray))
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("starts must have integer dtype")
@@ -346,7 +354,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @stops.setter
     def stops(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._index64(self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray))
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("stops must have integer dtype")
@@ -384,7 +392,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @offsets.setter
     def offsets(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._index64(self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray))
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("offsets must have integer dtype")
@@ -407,7 +415,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @counts.setter
     def counts(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._index64(self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray))
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("counts must have integer dtype")
@@ -435,7 +443,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @parents.setter
     def parents(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._index64(self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray))
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("parents must have integer dtype")
-- 
2.43.0


From f900ec17094301b47bfa24c0a7e105e2c4d437a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 019/158] fix: flatten and pad of an inner axis included
 unreachable content

---
 awkward0/array/jagged.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ad0193b..9a6c292 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1441,12 +1441,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._util_flatten(self._content, axis - 1))
 
         elif axis == 1:
-            self = self.compact()
-            innercounts = self._util_counts(self._content)
+            content = self.flatten()
+            innercounts = self._util_counts(content)
             if (innercounts < 0).any():
                 raise ValueError("cannot flatten an array containing scalar values")
             counts = self.JaggedArray.fromcounts(self.counts, innercounts).sum()
-            return type(self).fromcounts(counts, self._util_flatten(self._content, axis - 1))
+            return type(self).fromcounts(counts, self._util_flatten(content, axis - 1))
 
         else:
             if len(self) == 0:
@@ -1886,7 +1886,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("axis must be a non-negative integer (can't count from the end)")
 
         if axis > 0:
-            return type(self).fromcounts(self.counts, self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
+            return type(self).fromcounts(self.counts, self._util_pad(self.flatten(), length, maskedwhen, clip, axis - 1))
 
         flatstarts = self._starts.reshape(-1)
 
-- 
2.43.0


From e97f3160ee5597b51487e4d42452cbb0d3c680d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 020/158] fix: pad to length zero, and of regular inner
 dimensions

---
 awkward0/array/base.py   | 13 +++++++------
 awkward0/array/jagged.py |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 477e5d0..0fb135d 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -495,20 +495,20 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
         elif length == 0 and clip:
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.numpy.ma.array([]))
+                return cls.JaggedArray.fget(None).fromcounts(cls.numpy.zeros(len(array), dtype=cls.INDEXTYPE), cls.numpy.ma.array([], dtype=array.dtype))
             else:
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.MaskedArray.fget(None)([], []))
+                return cls.JaggedArray.fget(None).fromcounts(cls.numpy.zeros(len(array), dtype=cls.INDEXTYPE), cls.MaskedArray.fget(None)([], cls.numpy.array([], dtype=array.dtype)))
 
         elif array.shape[1] > length and clip:
             offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = array[(slice(None), slice(length)) + array.shape[2:]]
+            content = array[:, :length]
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
                 return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:])))
             else:
                 return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
 
         elif array.shape[1] >= length:
-            offsets = cls.numpy.arange(0, array.shape[1]*(len(array) + 1), array.shape[1], dtype=cls.INDEXTYPE)
+            offsets = cls.JaggedArray.fget(None).counts2offsets(cls.numpy.full(len(array), array.shape[1], dtype=cls.INDEXTYPE))
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
                 return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(array.reshape((-1,) + array.shape[2:])))
             else:
@@ -519,8 +519,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             content = cls.numpy.empty(array.shape[:1] + (length,) + array.shape[2:], dtype=array.dtype)
             content[:, :array.shape[1]] = array
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                mask = cls.numpy.ones(len(array), dtype=cls.MASKTYPE)
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:]), mask=mask))
+                mask = cls.numpy.ones(content.shape, dtype=cls.MASKTYPE)
+                mask[:, :array.shape[1]] = False
+                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:]), mask=mask.reshape((-1,) + array.shape[2:])))
             if maskedwhen:
                 mask = cls.numpy.ones((len(array), length), dtype=cls.MASKTYPE)
             else:
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 9a6c292..e1f485c 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1891,7 +1891,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         flatstarts = self._starts.reshape(-1)
 
         if len(self._content) == 0:
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length)
+            offsets = self.counts2offsets(self.numpy.full(len(flatstarts), length, dtype=self.INDEXTYPE))
             starts, stops = offsets[:-1], offsets[1:]
             content = self.IndexedMaskedArray(self.numpy.full(length*len(flatstarts), -1, dtype=self.INDEXTYPE), self._content, maskedwhen=-1)
             return self.copy(starts=starts.reshape(self._starts.shape), stops=stops.reshape(self._starts.shape), content=content)
@@ -1902,7 +1902,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             localindex = index - almostflat
             index = index.reshape(-1)
             comparator = self.counts.reshape(-1, 1)
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length, dtype=self.INDEXTYPE)
+            offsets = self.counts2offsets(self.numpy.full(len(flatstarts), length, dtype=self.INDEXTYPE))
 
         else:
             counts = self.numpy.maximum(self.counts.reshape(-1), length)
-- 
2.43.0


From 44027b9c6084c67a61e1c29b4b7addbc3a059386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 021/158] fix: tojagged of a JaggedArray with a different
 storage

---
 awkward0/array/jagged.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index e1f485c..3903947 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -876,13 +876,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self._starts) == 0:
                 return self.copy(content=data._content)
 
-            tmp = self.compact()
-            tmpparents = self.offsets2parents(tmp.offsets)
-
-            index = self.JaggedArray(tmp._starts, tmp._stops, (self.numpy.arange(tmp._stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
-
-            data = data.compact()
-            return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
+            return self.copy(content=data._tojagged(self._starts, self.stops, copy=False)._content)
 
         elif isinstance(data, awkward0.array.base.AwkwardArray):
             if len(self._starts) != len(data):
-- 
2.43.0


From aa6d93d08a2a74e75de7548ca72299a32fc11d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 022/158] fix: tojagged broadcast an array with a different
 length

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3903947..e69ddb6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -891,6 +891,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             content = self.numpy.empty(len(self.parents), dtype=data.dtype)
             if len(data.shape) == 0 or (len(data.shape) == 1 and data.shape[0] == 1):
                 content[:] = data
+            elif len(data) != len(self._starts):
+                raise ValueError("cannot broadcast array of length {0} to match JaggedArray of length {1}".format(len(data), len(self._starts)))
             else:
                 good = (self.parents >= 0)
                 content[good] = data[self.parents[good]]
-- 
2.43.0


From 73575b1496c190fe2473e9fed6da11cc58b3d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 023/158] fix: JaggedArray.zip with numbers, long stops, and
 without changing the given dict

---
 awkward0/array/jagged.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index e69ddb6..27b3278 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1775,27 +1775,28 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         first = None
         def ready(x):
-            starts, stops = x._starts.reshape(-1), x._stops.reshape(-1)
+            starts, stops = x._starts.reshape(-1), x.stops.reshape(-1)   # no underscore!
             if (x._canuseoffset() and len(starts) != 0 and starts[0] == 0) or (len(starts) != 0 and len(stops) != 0 and len(stops) >= len(starts) and starts[0] == 0 and stops[len(starts) - 1] >= starts[len(starts) - 1] and (starts[1:] == stops[:-1]).all()):
                 return x
             else:
                 offsets = x.counts2offsets(stops - starts)
                 starts, stops = offsets[:-1], offsets[1:]
                 starts = starts.reshape((-1,) + x._starts.shape[1:])
-                stops = stops.reshape((-1,) + x._stops.shape[1:])
+                stops = stops.reshape((-1,) + x._starts.shape[1:])
                 return x._tojagged(starts, stops, copy=False)
 
         if isinstance(columns1, JaggedArray):
             columns1 = first = ready(columns1)
 
         if isinstance(columns1, dict):
+            columns1 = OrderedDict(columns1)
             for n in columns1:
                 x = columns1[n]
                 if isinstance(x, JaggedArray):
                     if first is None:
                         columns1[n] = first = ready(x)
                     else:
-                        columns1[n] = x._tojagged(first._starts, first._stops, copy=False)
+                        columns1[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         columns2 = list(columns2)
         for i in range(len(columns2)):
@@ -1804,7 +1805,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns2[i] = first = ready(x)
                 else:
-                    columns2[i] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns2[i] = x._tojagged(first._starts, first.stops, copy=False)
 
         for n in columns3:
             x = columns3[n]
@@ -1812,7 +1813,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns3[n] = first = ready(x)
                 else:
-                    columns3[n] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns3[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         if first is None:
             raise TypeError("at least one argument in JaggedArray.zip must be a JaggedArray")
@@ -1832,13 +1833,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = first.tojagged(x)._content
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = first.tojagged(columns1)._content
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1849,7 +1850,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns2[i] = first.tojagged(x)._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1860,7 +1861,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns3[n] = first.tojagged(x)._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
-- 
2.43.0


From 09956003b5563d7a14dd2a3e62ad76855cb2cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 024/158] fix: regular of a JaggedArray with no rows

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 27b3278..1854bf8 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1084,10 +1084,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if len(self) > 0 and not (self.counts.reshape(-1)[0] == self.counts).all():
             raise ValueError("jagged array is not regular: different elements have different counts")
-        count = self.counts.reshape(-1)[0]
+        count = self.counts.reshape(-1)[0] if self.counts.size > 0 else 0
         content = self._util_regular(self._content)
 
-        if self._canuseoffset():
+        if self._canuseoffset() and len(self) > 0:
             out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
-- 
2.43.0


From 3628c594fb5886ccc83cfdc9019e6bbbd2d90cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 025/158] fix: concatenate when the first content is a Numpy
 array and another is not

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 0fb135d..b0cdd42 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -563,7 +563,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if all(isinstance(x, cls.numpy.ndarray) for x in arrays):
             return cls.numpy.concatenate(arrays)
         else:
-            return arrays[0].concatenate(arrays[1:])
+            return AwkwardArray.concatenate(arrays)
 
     @bothmethod
     def concatenate(isclassmethod, cls_or_self, arrays, axis=0):
-- 
2.43.0


From f9d635983fd31bcf2c62ae436a11c6734775be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 026/158] fix: concatenate IndexedMaskedArrays

---
 awkward0/array/masked.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index e013df3..aecaf6e 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -934,12 +934,14 @@ class IndexedMaskedArray(MaskedArray):
         indexes = []
         offset = 0
         for x in arrays:
-            tmp = x._index.copy()
-            tmp[tmp >= 0] += offset
+            tmp = x._mask.astype(cls.INDEXTYPE)
+            unmasked = x.boolmask(maskedwhen=False)
+            tmp[unmasked] += offset
+            tmp[~unmasked] = -1
             indexes.append(tmp)
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
         content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays], axis=0)
 
-        return cls(index, content, maskedwhen=maskedwhen)
+        return cls(index, content, maskedwhen=-1)
-- 
2.43.0


From b872bae3ba2843563957cc1f3fb011799bfea34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 027/158] fix: concatenate ObjectArrays of Numpy content

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 826f410..cedbe5f 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -283,7 +283,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         out = arrays[0].copy(content=[])
-        out._content = arrays[0]._content.__class__.concatenate([a._content for a in arrays])
+        out._content = cls._util_concatenate([a._content for a in arrays])
         return out
 
     _topandas_name = "ObjectSeries"
-- 
2.43.0


From cc8b0816d63159a89463152d5746ee9e2253a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 028/158] fix: copies of a ChunkedArray with new chunks kept
 the offsets of the old ones

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38a5572..24c9f2c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -25,6 +25,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if chunks is not None:
             out.chunks = chunks
             out._chunksizes = []
+            out._offsets = None
         if chunksizes is not None:
             out.chunksizes = chunksizes
         return out
-- 
2.43.0


From 4174ba001fb3306cdb243bf63d11307a248ff679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 029/158] fix: deepcopy of a ChunkedArray

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 24c9f2c..f6d25c9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -32,7 +32,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
-        out._chunks = [self._util_deepcopy(out._chunks) for x in out._chunks]
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From 72acb58ccf59198d3ef7d40b011e7ed7eabfdd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 030/158] fix: fillna changed the array it was called on

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index b0cdd42..132945b 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -645,7 +645,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     @classmethod
     def _util_fillna(cls, array, value):
         if isinstance(array, cls.numpy.ndarray):
-            data = cls.numpy.ma.getdata(array)
+            data = cls.numpy.array(cls.numpy.ma.getdata(array))
             mask = cls.numpy.ma.getmask(array)
             if mask is not cls.numpy.ma.nomask:
                 data[mask] = value
-- 
2.43.0


From d22184c2e30eed3395679a3d081175ebaea110b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 031/158] fix: concatenate arrays of different Awkward types

---
 awkward0/array/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 132945b..a47f1b5 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -578,9 +578,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             arrays = (self,) + tuple(arrays)
 
         def resolve(t):
-            for b in t.__bases__:
-                if issubclass(t, AwkwardArray):
-                    return resolve(b)
+            for b in t.__mro__:
+                if "_concatenate_axis0" in b.__dict__:
+                    return b
             else:
                 return t
 
-- 
2.43.0


From 26ac8b6c771f490129e61df97377b1e6baa0eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 032/158] fix: regular of a JaggedArray with no rows and small
 integer starts

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 1854bf8..14ec3d6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1092,7 +1092,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
-            indexes = self.numpy.repeat(self._starts, awkward0.util.windows_safe(count)).reshape(self._starts.shape + (count,))
+            indexes = self.numpy.repeat(self._starts.astype(self.INDEXTYPE), awkward0.util.windows_safe(count)).reshape(self._starts.shape + (count,))
             indexes += self.numpy.arange(count)
             return content[indexes]
 
-- 
2.43.0


From 04a1dc4592844fe0f46b54cfbaf70f4b8dfcc032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 033/158] fix: copies of a VirtualArray shared its transient
 cache key, and could not be deep

---
 awkward0/array/virtual.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae2da96..c7e56da 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -55,7 +55,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         out._type = self._type
         out._nbytes = self._nbytes
         out._persistvirtual = self._persistvirtual
-        out._array = self._array
+        out._array = None if isinstance(self._array, VirtualArray.TransientKey) else self._array    # transient keys belong to only one object
         if self._setitem is None:
             out._setitem = None
         else:
@@ -84,7 +84,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         out = self.copy(generator=generator, args=args, kwargs=kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
-        out._array = self._util_deepcopy(out._array)
+        if not isinstance(out._array, awkward0.util.string):
+            out._array = self._util_deepcopy(out._array)
         if out._setitem is not None:
             for n in list(out._setitem):
                 out._setitem[n] = self._util_deepcopy(out._setitem[n])
-- 
2.43.0


From 9bad4aef94755dd83a074962e535fdf1f71a0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 034/158] fix: concatenating JaggedArrays with small integer
 starts overflowed

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 14ec3d6..14dd415 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1661,8 +1661,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-        starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x.stops for x in arrays])
+        starts = cls.numpy.concatenate([x._starts for x in arrays]).astype(cls.INDEXTYPE)
+        stops = cls.numpy.concatenate([x.stops for x in arrays]).astype(cls.INDEXTYPE)
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
-- 
2.43.0


From d518fd2f1135b4fada2518ebb14c55d86bb52432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 035/158] fix: JaggedArray ufuncs failed with zero-dimensional
 and Awkward per-row operands

---
 awkward0/array/jagged.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 14dd415..1cd84ca 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1026,12 +1026,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         for i in range(len(inputs)):
             if isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and not isinstance(inputs[i], JaggedArray):
                 data = self._util_toarray(inputs[i], inputs[i].dtype)
-                if starts.shape != data.shape:
+                if data.shape != () and starts.shape != data.shape:
                     raise ValueError("cannot broadcast JaggedArray of shape {0} with array of shape {1}".format(starts.shape, data.shape))
 
                 if parents is None:
                     parents = jaggedarray.parents
-                    if self._canuseoffset() and len(jaggedarray.starts) > 0 and jaggedarray.starts[0] == 0:
+                    if jaggedarray._canuseoffset() and len(jaggedarray.starts) > 0 and jaggedarray.starts[0] == 0:
                         good = None
                     else:
                         good = (parents >= 0)
@@ -1046,6 +1046,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             content[n] = recurse(x[n])
                         return content
 
+                    elif isinstance(x, awkward0.array.base.AwkwardArray):
+                        if len(x) == 0:
+                            return x
+                        elif good is None:
+                            return x[parents]
+                        else:
+                            return x[self.numpy.where(good, parents, 0)]
+
                     elif good is None:
                         if len(x.shape) == 0:
                             content = self.numpy.full(len(parents), x, dtype=x.dtype)
-- 
2.43.0


From 8e442487f33b93a1827a4ba155999b662dae5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 036/158] fix: Table ufuncs with several outputs, and !=

---
 awkward0/array/table.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 075c03c..b892f75 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -698,12 +698,10 @@ class Table(awkward0.array.base.AwkwardArray):
         for n, x in inputsdict.items():
             newcolumns[n] = getattr(ufunc, method)(*x, **kwargs)
 
+            thislen = len(newcolumns[n]) if isinstance(newcolumns[n], tuple) else False
             if tuplelen is None:
-                if isinstance(x, tuple):
-                    tuplelen = len(x)
-                else:
-                    tuplelen = False
-            elif isinstance(x, tuple) != tuplelen:
+                tuplelen = thislen
+            elif thislen != tuplelen:
                 raise AssertionError("ufuncs return tuples of different lengths or some tuples and some non-tuples")
 
         assert len(newcolumns) != 0
@@ -716,6 +714,8 @@ class Table(awkward0.array.base.AwkwardArray):
                 assert issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool))
                 if out is None:
                     out = x
+                elif ufunc is self.numpy.not_equal:
+                    out = self.numpy.bitwise_or(out, x, out=out)
                 else:
                     out = self.numpy.bitwise_and(out, x, out=out)
             assert out is not None
@@ -734,7 +734,7 @@ class Table(awkward0.array.base.AwkwardArray):
             out = [table.empty_like() for i in range(tuplelen)]
             for n in inputsdict:
                 for i in range(tuplelen):
-                    out[i][n] = newcolumns[n]
+                    out[i][n] = newcolumns[n][i]
             return tuple(out)
 
     @property
-- 
2.43.0


From 14962bd675d6f7603061bb0f38ab0b05ea840532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 037/158] fix: UnionArray ufuncs with one value per element,
 mixed tag types, or no elements

---
 awkward0/array/union.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index db88aca..6c266ba 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -371,7 +371,16 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if any(x.shape != tags[0].shape for x in tags[1:]):
             raise ValueError("cannot {0} UnionArrays because tag shapes differ".format(ufunc))
 
-        combos = self.numpy.stack(tags, axis=-1).view([(str(i), x.dtype) for i, x in enumerate(tags)]).reshape(tags[0].shape)
+        inputs = [self.numpy.array(x) if isinstance(x, (list, tuple)) else x for x in inputs]
+        perelement = [isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and x.shape != ()) for x in inputs]
+        for x, each in zip(inputs, perelement):
+            if each and len(x) != len(tags[0]):
+                raise ValueError("cannot {0} UnionArray of length {1} with an array of length {2}".format(ufunc, len(tags[0]), len(x)))
+
+        if len(tags[0]) == 0:
+            return getattr(ufunc, method)(*[x._contents[0][:0] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+
+        combos = self.numpy.stack(tags, axis=-1)
 
         outtags = self.numpy.empty(tags[0].shape, dtype=self.TAGTYPE)
         outindex = self.numpy.empty(tags[0].shape, dtype=self.INDEXTYPE)
@@ -379,12 +388,12 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = None
         contents = {}
         types = {}
-        for outtag, combo in enumerate(self.numpy.unique(combos)):
-            mask = (combos == combo)
+        for outtag, combo in enumerate(self.numpy.unique(combos.reshape(-1, len(tags)), axis=0)):
+            mask = (combos == combo).all(axis=-1)
             outtags[mask] = outtag
             outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
 
-            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+            result = getattr(ufunc, method)(*[x[mask] if each else x for x, each in zip(inputs, perelement)], **kwargs)
 
             if isinstance(result, tuple):
                 if out is None:
-- 
2.43.0


From 8fa91572345b190acdc0c9fc2a4ee4470fc5e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 038/158] fix: a nested list combined with a JaggedArray was
 not required to have the same row lengths

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 1cd84ca..f4cfb80 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1015,6 +1015,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         inputs[i] = self.numpy.array(inputs[i], copy=False)
                     else:
                         inputs[i] = self.JaggedArray.fromiter(inputs[i])
+                        if isinstance(inputs[i], JaggedArray):
+                            inputs[i] = inputs[i]._tojagged(starts, stops, copy=False)
 
         for jaggedarray in inputs:
             if isinstance(jaggedarray, JaggedArray):
-- 
2.43.0


From 5aa963c2a1968c5c0e036ec1cbb69a23fca2604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 039/158] fix: zero-dimensional operands of a JaggedArray did
 not broadcast over content with more dimensions

---
 awkward0/array/jagged.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f4cfb80..908eb68 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1028,7 +1028,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         for i in range(len(inputs)):
             if isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and not isinstance(inputs[i], JaggedArray):
                 data = self._util_toarray(inputs[i], inputs[i].dtype)
-                if data.shape != () and starts.shape != data.shape:
+                if data.shape == ():
+                    continue
+                if starts.shape != data.shape:
                     raise ValueError("cannot broadcast JaggedArray of shape {0} with array of shape {1}".format(starts.shape, data.shape))
 
                 if parents is None:
-- 
2.43.0


From 6699d8a01480fdd9eb272cb8cd63344a9da50233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 040/158] fix: masked and chunked arrays did not combine with
 Numpy scalars on the left

---
 awkward0/array/chunked.py | 2 ++
 awkward0/array/masked.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index f6d25c9..77033f9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -550,6 +550,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             for x in inputs:
                 if isinstance(x, ChunkedArray):
                     batch.append(x._chunks[i])
+                elif isinstance(x, self.numpy.ndarray) and x.shape == ():
+                    batch.append(x)
                 elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                     batch.append(x[slc])
                 else:
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index aecaf6e..5e5f7df 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -227,6 +227,8 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
                 inputs[i] = inputs[i]._content[tokeep]
+            elif isinstance(inputs[i], self.numpy.ndarray) and inputs[i].shape == ():
+                pass
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 inputs[i] = inputs[i][tokeep]
             else:
-- 
2.43.0


From 2fae8d0e122aabc95a17772940c3bf5d237a83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 041/158] fix: the shape of a UnionArray raised an error

---
 awkward0/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index b0b1c3d..7f29984 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -448,7 +448,7 @@ class UnionType(Type):
 
     @property
     def shape(self):
-        raise TypeError("Union has no Numpy dtype")
+        return ()
 
     @property
     def dtype(self):
-- 
2.43.0


From 15f489128136a90bc59753483091b1f15a8bbd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:17 +0000
Subject: [PATCH 042/158] fix: reducers of flat arrays: count, any, all, NaN,
 identities, mixed types and missing values

---
 awkward0/array/base.py    |  56 ++++++++++++----
 awkward0/array/chunked.py |  45 +++++++------
 awkward0/array/indexed.py |  18 +----
 awkward0/array/masked.py  | 134 ++++++++++++--------------------------
 awkward0/array/union.py   |  44 +++++--------
 awkward0/array/virtual.py |   4 +-
 6 files changed, 126 insertions(+), 175 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index a47f1b5..0bd7777 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -541,23 +541,53 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, AwkwardArray):
             return array._reduce(ufunc, identity, dtype)
 
-        elif len(array) == 0:
-            if dtype is None:
-                dtype = array.dtype
-            return ufunc.reduce(cls.numpy.full((1,) + array.shape[1:], identity, dtype=dtype), axis=-1)
+        if ufunc is None or ufunc is cls.numpy.count_nonzero:
+            array = cls._util_preparecount(array, ufunc)
+            ufunc = cls.numpy.add
+        else:
+            array, identity = cls._util_preparenumpy(array, identity, dtype)
 
+        if len(array) == 0:
+            return ufunc.reduce(cls.numpy.full((1,) + array.shape[1:], identity, dtype=array.dtype), axis=-1)
         else:
-            original = array
-            if dtype is not None:
-                array = cls.numpy.array(array, dtype=dtype, copy=False)
-            if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
-                mask = cls.numpy.isnan(array)
-                if mask.any():
-                    if array is original or not array.flags.owndata:
-                        array = array.copy()
-                    array[mask] = identity
             return ufunc.reduce(array, axis=None)
 
+    @classmethod
+    def _util_preparecount(cls, array, ufunc):
+        # ones for the elements to count, zeros for the others
+        if ufunc is None:
+            out = cls.numpy.ones(array.shape, dtype=cls.INDEXTYPE)
+        else:
+            out = (array != 0).astype(cls.INDEXTYPE)
+        if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
+            out[cls.numpy.isnan(array)] = 0
+        return out
+
+    @classmethod
+    def _util_preparenumpy(cls, array, identity, dtype):
+        # replaces NaN with the identity, converts to the type in which to reduce, and expresses the identity in that type
+        if dtype is None:
+            if issubclass(array.dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                dtype = cls.numpy.dtype(type(identity))
+            else:
+                dtype = array.dtype
+        else:
+            dtype = cls.numpy.dtype(dtype)
+
+        if isinstance(identity, float) and cls.numpy.isinf(identity):
+            if issubclass(dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                identity = (identity > 0)
+            elif cls._util_isintegertype(dtype.type):
+                identity = cls.numpy.iinfo(dtype.type).max if identity > 0 else cls.numpy.iinfo(dtype.type).min
+
+        mask = None
+        if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
+            mask = cls.numpy.isnan(array)
+        array = array.astype(dtype)
+        if mask is not None:
+            array[mask] = identity
+        return array, identity
+
     @classmethod
     def _util_concatenate(cls, arrays):
         if all(isinstance(x, cls.numpy.ndarray) for x in arrays):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 77033f9..29447bf 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -695,6 +695,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks.append(this)
             return self.copy(chunks=chunks)
 
+        combine = self.numpy.add if ufunc is None or ufunc is self.numpy.count_nonzero else ufunc
+
         out = None
         for chunkid, chunk in enumerate(self._chunks):
             if self._chunksizes[chunkid] > 0:
@@ -702,13 +704,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if out is None:
                     out = this
                 else:
-                    out = ufunc(out, this)
+                    out = combine(out, this)
 
         if out is None:
-            if dtype is None:
-                return identity
+            if len(self._chunks) != 0:
+                return self._util_reduce(self._chunks[0][:0], ufunc, identity, dtype)
             else:
-                return dtype.type(identity)
+                return self._util_reduce(self.numpy.empty(0, dtype=self.DEFAULTTYPE), ufunc, identity, dtype)
         else:
             return out
 
@@ -732,28 +734,25 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def _prepare(self, ufunc, identity, dtype):
         self.knowchunksizes()
-        out = None
-        pos = 0
+
+        chunks = []
         for chunkid, chunk in enumerate(self._chunks):
-            if self._chunksizes[chunkid] > 0:
+            if self._chunksizes[chunkid] > 0 or (chunkid == 0 and len(self) == 0):
                 this = chunk[:self._chunksizes[chunkid]]
-                if out is None:
-                    if dtype is None and issubclass(this.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                        dtype = self.numpy.dtype(type(identity))
-                    if dtype is None:
-                        dtype = this.dtype
-                    out = self.numpy.empty((sum(self._chunksizes),) + this.shape[1:], dtype=dtype)
-
-                newpos = pos + this.shape[0]
-                out[pos:newpos] = this
-                pos = newpos
-
-        if out is None:
-            if dtype is None:
-                dtype = self.DEFAULTTYPE
-            return self.numpy.array([identity], dtype=dtype)
+                if isinstance(this, awkward0.array.base.AwkwardArray):
+                    this = this._prepare(ufunc, identity, dtype)
+                elif dtype is not None:
+                    this, _ = self._util_preparenumpy(this, identity, dtype)
+                chunks.append(this)
+
+        if len(chunks) == 0:
+            return self.numpy.empty(0, dtype=self.DEFAULTTYPE if dtype is None else dtype)
+        elif len(chunks) == 1:
+            return chunks[0]
+        elif isinstance(chunks[0], awkward0.array.base.AwkwardArray):
+            return chunks[0].concatenate(chunks[1:])
         else:
-            return out
+            return self.numpy.concatenate(chunks)
 
     def _util_columns(self, seen):
         if id(self) in seen:
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index ae84f83..fdb7b7c 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -265,14 +265,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out._reduce(ufunc, identity, dtype)
 
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self._content[self._index], ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, self.numpy.ndarray):
@@ -745,14 +738,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return out._reduce(ufunc, identity, dtype)
 
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self.dense, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, self.numpy.ndarray):
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 5e5f7df..9472094 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -321,84 +321,62 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _reduce(self, ufunc, identity, dtype):
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
-
-        elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
-
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self._unmaskedcontent(), ufunc, identity, dtype)
+
+    def _unmaskedcontent(self):
+        mask = self.boolmask(maskedwhen=False)
+        return self._content[:len(mask)][mask]
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
+        mask = self.boolmask(maskedwhen=False)
+        content = self._unmaskedcontent()
 
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if ufunc is None:
-                content = self.numpy.zeros(self._content.shape, dtype=self.numpy.float32)
-                content[self.numpy.isnan(self._content)] = self.numpy.nan
-            elif ufunc is self.numpy.count_nonzero:
-                content = self.numpy.ones(self._content.shape, dtype=self.numpy.int8)
-                content[self.numpy.isnan(self._content)] = 0
-                content[self._content == 0] = 0
-            elif dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
+        if isinstance(content, awkward0.array.table.Table):
+            out = content.empty_like()
+            for n in content.columns:
+                out[n] = self._util_preparemissing(content[n], mask, ufunc, identity, dtype)
+            return out
         else:
-            content = self._content._prepare(ufunc, identity, dtype)
+            return self._util_preparemissing(content, mask, ufunc, identity, dtype)
 
-        if content is self._content or not content.flags.owndata:
-            content = content.copy()
+    @classmethod
+    def _util_preparemissing(cls, content, mask, ufunc, identity, dtype):
+        # content has only the elements that are not missing; put it where mask is True, and values that do not take part elsewhere
+        if not isinstance(content, cls.numpy.ndarray):
+            content = content._prepare(ufunc, identity, dtype)
+
+        if isinstance(content, awkward0.array.table.Table):
+            out = content.empty_like()
+            for n in content.columns:
+                out[n] = cls._util_preparemissing(content[n], mask, ufunc, identity, dtype)
+            return out
 
         if ufunc is None:
-            content[self.ismasked] = self.numpy.nan
-
+            content = cls.numpy.where(cls._util_preparecount(content, ufunc) != 0, 0.0, cls.numpy.nan)
+            missing = cls.numpy.nan
+        elif ufunc is cls.numpy.count_nonzero:
+            content = cls._util_preparecount(content, ufunc)
+            missing = 0
         else:
-            dtype = content.dtype
-
-            if identity == self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = True
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).max
-            elif identity == -self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = False
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).min
-
-            content[self.ismasked] = identity
+            content, missing = cls._util_preparenumpy(content, identity, dtype)
 
-        return content
+        out = cls.numpy.full(mask.shape + content.shape[1:], missing, dtype=content.dtype)
+        if len(content) != 0:
+            out[mask] = content
+        return out
 
     def argmin(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self.isunmasked()].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            return self.numpy.nonzero(self.isunmasked)[0][self._unmaskedcontent().argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self.isunmasked()].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            return self.numpy.nonzero(self.isunmasked)[0][self._unmaskedcontent().argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
@@ -870,52 +848,20 @@ class IndexedMaskedArray(MaskedArray):
     def indexed(self):
         return self
 
-    def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
-
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
-        else:
-            content = self._content._prepare(ufunc, identity, dtype)
-
-        if identity == self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = True
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).max
-
-        elif identity == -self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = False
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).min
-
-        out = self.numpy.full(self._mask.shape + content.shape[1:], identity, dtype=content.dtype)
-        out[self.isunmasked] = content[self.mask[self.mask >= 0]]
-        return out
+    def _unmaskedcontent(self):
+        return self._content[self._mask[self.boolmask(maskedwhen=False)]]
 
     def argmin(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            return self.numpy.nonzero(self.isunmasked)[0][self._unmaskedcontent().argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            return self.numpy.nonzero(self.isunmasked)[0][self._unmaskedcontent().argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 6c266ba..6c0bc43 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -498,37 +498,29 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             raise ValueError("some UnionArray possibilities are jagged and others are not")
 
     def _reduce(self, ufunc, identity, dtype):
-        prepared = self._prepare(ufunc, identity, dtype)
-        if ufunc is None:
-            return (1 - self.numpy.isnan(prepared)).sum()
-        elif ufunc is self.numpy.count_nonzero:
-            return (1 - (prepared == 0)).sum()
-        if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-            prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-        return ufunc.reduce(prepared)
+        return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
-        if dtype is None and issubclass(self.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-            dtype = self.numpy.dtype(type(identity))
-        if dtype is None:
-            dtype = self.dtype
-
-        out = None
         index = self._index[:len(self._tags)]
+        masks, parts = [], []
         for tag, content in enumerate(self._contents):
-            if not isinstance(content, self.numpy.ndarray):
-                content = content._prepare(ufunc, identity, dtype)
-
-            if not isinstance(content, self.numpy.ndarray):
-                raise TypeError("cannot reduce a UnionArray of non-primitive type")
-
             mask = (self._tags == tag)
-            c = content[index[mask]]
-
-            if out is None:
-                out = self.numpy.full(self._tags.shape[:1] + c.shape[1:], identity, dtype=dtype)
-            out[mask] = c
-
+            if mask.any() or tag == 0:
+                part = content[index[mask]]
+                if not isinstance(part, self.numpy.ndarray) and not self._util_hasjagged(part):
+                    part = part._prepare(ufunc, identity, dtype)
+                if not isinstance(part, self.numpy.ndarray):
+                    raise TypeError("cannot reduce a UnionArray of non-primitive type")
+                if dtype is not None:
+                    part, _ = self._util_preparenumpy(part, identity, dtype)
+                masks.append(mask)
+                parts.append(part)
+
+        if len(parts) > 1 and len(parts[0]) == 0:
+            masks, parts = masks[1:], parts[1:]
+        out = self.numpy.empty(self._tags.shape[:1] + parts[0].shape[1:], dtype=self.numpy.result_type(*parts))
+        for mask, part in zip(masks, parts):
+            out[mask] = part
         return out
 
     def argmin(self):
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index c7e56da..33f23c8 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -455,12 +455,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def _prepare(self, ufunc, identity, dtype):
         array = self.array
         if isinstance(array, self.numpy.ndarray):
-            if dtype is None and issubclass(array.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
             if dtype is None:
                 return array
             else:
-                return array.astype(dtype)
+                return self._util_preparenumpy(array, identity, dtype)[0]
         else:
             return array._prepare(ufunc, identity, dtype)
 
-- 
2.43.0


From d8758d04602efcd669d92953bbe7e7e322a37687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 043/158] fix: reducers of jagged arrays: NaN in count_nonzero
 and in content with more dimensions, Table views

---
 awkward0/array/jagged.py | 40 +++++++++++-----------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 908eb68..d59a3f3 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1505,31 +1505,20 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents=[])
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._reduce(ufunc, identity, dtype)
+            out = self._content.empty_like()
+            for n in self._content.columns:
+                out[n] = self.copy(content=self._content[n])._reduce(ufunc, identity, dtype)
             return out
 
         elif isinstance(self._content, awkward0.array.base.AwkwardArray):
             thyself = self.copy(content=self._content._prepare(ufunc, identity, dtype))
 
         elif len(self._content.shape) > 1:
-            if ufunc is None:
+            if ufunc is None or ufunc is self.numpy.count_nonzero:
+                content = self._util_preparecount(self._content, ufunc)
                 ufunc = self.numpy.add
-                if issubclass(self._content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                    content = 1 - self.numpy.isnan(self._content).astype(self.INDEXTYPE)
-                else:
-                    content = self.numpy.ones(self._content.shape, dtype=self.INDEXTYPE)
-
-            elif ufunc is self.numpy.count_nonzero:
-                ufunc = self.numpy.add
-                content = 1 - (self._content == 0).astype(self.INDEXTYPE)
-
             else:
-                content = self._content
-
-            if dtype is not None:
-                content = content.astype(dtype)
+                content, identity = self._util_preparenumpy(self._content, identity, dtype)
 
             return self.copy(content=ufunc.reduce(content, axis=-1))
 
@@ -1537,9 +1526,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             thyself = self.copy()
 
         if isinstance(thyself._content, awkward0.array.table.Table):
-            out = thyself._content.copy(contents=[])
-            for n, x in thyself._content._contents.items():
-                out[n] = thyself.copy(content=x)._reduce(ufunc, identity, dtype)
+            out = thyself._content.empty_like()
+            for n in thyself._content.columns:
+                out[n] = thyself.copy(content=thyself._content[n])._reduce(ufunc, identity, dtype)
             return out
 
         if len(thyself._starts.shape) > 1:
@@ -1551,16 +1540,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             thyself = thyself._tojagged(offsets[:-1], offsets[1:], copy=False)
 
         content = thyself._content
-        if ufunc is None:
-            ufunc = self.numpy.add
-            if issubclass(content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                content = 1 - self.numpy.isnan(content).astype(self.INDEXTYPE)
-            else:
-                content = self.numpy.ones(content.shape, dtype=self.INDEXTYPE)
-
-        elif ufunc is self.numpy.count_nonzero:
+        if ufunc is None or ufunc is self.numpy.count_nonzero:
+            content = self._util_preparecount(content, ufunc)
             ufunc = self.numpy.add
-            content = 1 - (content == 0).astype(self.INDEXTYPE)
 
         elif issubclass(content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
             mask = self.numpy.isnan(content)
-- 
2.43.0


From 156329ffe927beff5d73af08d2c9a7bb40a60ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 044/158] fix: reducing, padding, converting and filling a view
 of a Table

---
 awkward0/array/table.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index b892f75..2fbf14b 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -775,9 +775,9 @@ class Table(awkward0.array.base.AwkwardArray):
         raise ValueError("cannot flatten through a Table")
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_pad(x, length, maskedwhen, clip, axis)
+        out = self.empty_like()
+        for n in self._contents:
+            out[n] = self._util_pad(self[n], length, maskedwhen, clip, axis)
         return out
 
     def regular(self):
@@ -830,9 +830,9 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def _reduce(self, ufunc, identity, dtype):
         if self._hasjagged():
-            out = self.copy(contents={})
-            for n, x in self._contents.items():
-                out[n] = self._util_reduce(x, ufunc, identity, dtype)
+            out = self.empty_like()
+            for n in self._contents:
+                out[n] = self._util_reduce(self[n], ufunc, identity, dtype)
             return out
 
         else:
@@ -845,7 +845,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 self.numpy.multiply: "prod",
                 self.numpy.minimum: "min",
                 self.numpy.maximum: "max"
-                }[ufunc])
+                }.get(ufunc, getattr(ufunc, "__name__", "reduce")))
             out._showdict = True
             for n in self._contents:
                 x = self._contents[n][self._index()]
-- 
2.43.0


From 35d4c7b46de60588d9956c57d18c1db99ef4298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 045/158] fix: converting, filling and preparing the columns of
 a view of a Table, or of a Table with boolean columns

---
 awkward0/array/table.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 2fbf14b..8e39690 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -353,7 +353,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def zeros_like(self, **overrides):
         out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
+        for n in self._contents:
+            x = self[n]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.zeros_like(x)
             else:
@@ -362,7 +363,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def ones_like(self, **overrides):
         out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
+        for n in self._contents:
+            x = self[n]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.ones_like(x)
             else:
@@ -853,15 +855,13 @@ class Table(awkward0.array.base.AwkwardArray):
             return out.Row(out, 0)
 
     def _prepare(self, ufunc, identity, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                if dtype is None and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    dtype = self.numpy.dtype(type(identity))
-                if dtype is not None:
-                    x = x.astype(dtype)
-            else:
+        out = self.empty_like()
+        for n in self._contents:
+            x = self[n]
+            if not isinstance(x, self.numpy.ndarray):
                 x = x._prepare(ufunc, identity, dtype)
+            elif dtype is not None:
+                x, _ = self._util_preparenumpy(x, identity, dtype)
             out[n] = x
         return out
 
@@ -878,15 +878,15 @@ class Table(awkward0.array.base.AwkwardArray):
         return list(self._contents)
 
     def astype(self, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = x.astype(dtype)
+        out = self.empty_like()
+        for n in self._contents:
+            out[n] = self[n].astype(dtype)
         return out
 
     def fillna(self, value):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_fillna(x, value)
+        out = self.empty_like()
+        for n in self._contents:
+            out[n] = self._util_fillna(self[n], value)
         return out
 
     @classmethod
-- 
2.43.0


From f97cc0111a2617c0117b73925f7fcd800464c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 046/158] fix: weighted moments and variances

---
 awkward0/array/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 0bd7777..403c28d 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -219,7 +219,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             if weight is None:
                 return self.numpy.true_divide((self**n).sum(), self.count())
             else:
-                return self.numpy.true_divide(((self * weight)**n).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide((self**n * weight).sum(), (self * 0 + weight).sum())
 
     def mean(self, weight=None):
         with self.numpy.errstate(invalid="ignore"):
@@ -235,9 +235,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 one = self.numpy.true_divide(self.sum(), denom)
                 two = self.numpy.true_divide((self**2).sum(), denom)
             else:
-                denom (self * 0 + weight).sum()
+                denom = (self * 0 + weight).sum()
                 one = self.numpy.true_divide((self * weight).sum(), denom)
-                two = self.numpy.true_divide(((self * weight)**2).sum(), denom)
+                two = self.numpy.true_divide((self**2 * weight).sum(), denom)
             if ddof != 0:
                 return (two - one**2) * denom / (denom - ddof)
             else:
-- 
2.43.0


From 3d7f08d4884f1708a73814b6f3c02fb68ce5be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 047/158] fix: reducers of indexed, sparse and masked views of
 Tables

---
 awkward0/array/indexed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index fdb7b7c..5dbc1b9 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -259,9 +259,9 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
+            out = self._content.empty_like()
+            for n in self._content.columns:
+                out[n] = self.copy(content=self._content[n])
             return out._reduce(ufunc, identity, dtype)
 
         else:
@@ -732,9 +732,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
+            out = self._content.empty_like()
+            for n in self._content.columns:
+                out[n] = self.copy(content=self._content[n])
             return out._reduce(ufunc, identity, dtype)
 
         else:
-- 
2.43.0


From ef79bdcd62ce680286ca4c676fbb63dc51b1fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 048/158] fix: combinatorics of JaggedArrays with small or
 unsigned integer starts overflowed

---
 awkward0/array/jagged.py | 56 ++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index d59a3f3..9e1ebdc 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1111,18 +1111,19 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _argpairs(self):
         self._valid()
 
-        counts = self.counts * (self.counts + 1) >> 1    # N * (N + 1) // 2
+        selfcounts = self.counts.astype(self.INDEXTYPE)
+        counts = selfcounts * (selfcounts + 1) >> 1    # N * (N + 1) // 2
 
         offsets = self.counts2offsets(counts)
         indexes = self.numpy.arange(offsets[-1])
         parents = self.offsets2parents(offsets)
 
-        n = self.counts[parents]
+        n = selfcounts[parents]
         k = indexes - offsets[parents]
         two_n_1 = (2*n + 1)
         i = self.numpy.floor((two_n_1 - self.numpy.sqrt(two_n_1*two_n_1 - 8*k)) / 2).astype(self.INDEXTYPE)
 
-        starts_parents = self._starts[parents]
+        starts_parents = self._starts[parents].astype(self.INDEXTYPE)
 
         left = starts_parents + i
         right = starts_parents + k - n*i + (i*(i + 1) >> 1)
@@ -1132,7 +1133,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return out
 
     def _argdistincts(self, absolute):
-        counts_comb = self.counts*(self.counts - 1) // 2
+        selfcounts = self.counts.astype(self.INDEXTYPE)
+        counts_comb = selfcounts*(selfcounts - 1) // 2
         offsets_comb = self.counts2offsets(counts_comb)
         parents_comb = self.offsets2parents(offsets_comb)
         local_indices = self.numpy.arange(offsets_comb[-1]) - offsets_comb[parents_comb]
@@ -1152,13 +1154,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         # To find j, we can subtract L from our local indices to get the index
         # from zero of the inner loop, then add i + 1.
 
-        n = self.counts[parents_comb]
+        n = selfcounts[parents_comb]
         b = 2*n - 1
         i = self.numpy.floor((b - self.numpy.sqrt(b*b - 8*local_indices)) / 2).astype(counts_comb.dtype)
         j = local_indices + i*(i - b + 2) // 2 + 1
 
         if absolute:
-            starts_parents = self._starts[parents_comb]
+            starts_parents = self._starts[parents_comb].astype(self.INDEXTYPE)
             i += starts_parents
             j += starts_parents
 
@@ -1184,6 +1186,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             # good to (at least) 100 choose 4
             return np.floor((np.sqrt(4*np.sqrt(24*a + 1) + 5) + 3)/2).astype(self.INDEXTYPE)
 
+        selfcounts = self.counts.astype(self.INDEXTYPE)
+
         if n > 5:
             # Need to solve general polynomial \prod_{i<=k} (n-i) / k! = a
             # Not sure if possible, is the Galois group solvable for this class of polynomial?
@@ -1191,17 +1195,17 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             # I think the next levels should be too, but could not quite make it work...
             raise NotImplementedError
         elif n == 5:
-            counts = self.counts*(self.counts - 1)*(self.counts - 2)*(self.counts - 3)*(self.counts - 4)//120
+            counts = selfcounts*(selfcounts - 1)*(selfcounts - 2)*(selfcounts - 3)*(selfcounts - 4)//120
         elif n == 4:
-            counts = self.counts*(self.counts - 1)*(self.counts - 2)*(self.counts - 3)//24
+            counts = selfcounts*(selfcounts - 1)*(selfcounts - 2)*(selfcounts - 3)//24
         elif n == 3:
-            counts = self.counts*(self.counts - 1)*(self.counts - 2)//6
+            counts = selfcounts*(selfcounts - 1)*(selfcounts - 2)//6
         elif n == 2:
-            counts = self.counts*(self.counts - 1)//2
+            counts = selfcounts*(selfcounts - 1)//2
         elif n <= 1:
             raise ValueError("Choosing 0 or 1 items is trivial")
 
-        local = self.localindex.content
+        local = self.localindex.content.astype(self.INDEXTYPE)
         offsets = self.JaggedArray.counts2offsets(counts)
         indices = np.arange(offsets[-1])
         parents = self.JaggedArray.offsets2parents(offsets)
@@ -1218,7 +1222,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             k1 = k2 - i2*(i2 - 1)//2
             i1 = k1
             if absolute:
-                starts_parents = self.starts[parents]
+                starts_parents = self.starts[parents].astype(self.INDEXTYPE)
                 for idx in [i1, i2, i3, i4, i5]:
                     idx += starts_parents
             out = self.JaggedArray.fromoffsets(offsets, self.Table.named("tuple", i1, i2, i3, i4, i5))
@@ -1232,7 +1236,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             k1 = k2 - i2*(i2 - 1)//2
             i1 = k1
             if absolute:
-                starts_parents = self.starts[parents]
+                starts_parents = self.starts[parents].astype(self.INDEXTYPE)
                 for idx in [i1, i2, i3, i4]:
                     idx += starts_parents
             out = self.JaggedArray.fromoffsets(offsets, self.Table.named("tuple", i1, i2, i3, i4))
@@ -1244,7 +1248,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             k1 = k2 - i2*(i2 - 1)//2
             i1 = k1
             if absolute:
-                starts_parents = self.starts[parents]
+                starts_parents = self.starts[parents].astype(self.INDEXTYPE)
                 for idx in [i1, i2, i3]:
                     idx += starts_parents
             out = self.JaggedArray.fromoffsets(offsets, self.Table.named("tuple", i1, i2, i3))
@@ -1254,7 +1258,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             k1 = k2 - i2*(i2 - 1)//2
             i1 = k1
             if absolute:
-                starts_parents = self.starts[parents]
+                starts_parents = self.starts[parents].astype(self.INDEXTYPE)
                 for idx in [i1, i2]:
                     idx += starts_parents
             out = self.JaggedArray.fromoffsets(offsets, self.Table.named("tuple", i1, i2))
@@ -1293,7 +1297,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         out = self._argdistincts(absolute=False)
 
         if nested:
-            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts - 1), self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts.astype(self.INDEXTYPE) - 1), self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
 
         return out
 
@@ -1313,14 +1317,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         out._parents = argpairs._parents
 
         if nested:
-            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts - 1), self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts.astype(self.INDEXTYPE) - 1), self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
 
         return out
 
     def argpairs(self, nested=False):
         out = self._argpairs()
-        out["0"] = out["0"] - self._starts
-        out["1"] = out["1"] - self._starts
+        starts = self._starts.astype(self.INDEXTYPE)
+        out["0"] = out["0"] - starts
+        out["1"] = out["1"] - starts
 
         if nested:
             out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts((self.localindex[:, ::-1] + 1).flatten(), out._content))
@@ -1349,16 +1354,17 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(self) != len(other):
             raise ValueError("both JaggedArrays must have the same length")
 
-        offsets = self.counts2offsets(self.counts * other.counts)
+        othercounts = other.counts.astype(self.INDEXTYPE)
+        offsets = self.counts2offsets(self.counts.astype(self.INDEXTYPE) * othercounts)
         indexes = self.numpy.arange(offsets[-1], dtype=self.INDEXTYPE)
         parents = self.offsets2parents(offsets)
 
-        ocp = other.counts[parents]
+        ocp = othercounts[parents]
         iop = indexes - offsets[parents]
         iop_ocp = iop // ocp
 
-        left = self._starts[parents] + iop_ocp
-        right = other._starts[parents] + iop - ocp * iop_ocp
+        left = self._starts[parents].astype(self.INDEXTYPE) + iop_ocp
+        right = other._starts[parents].astype(self.INDEXTYPE) + iop - ocp * iop_ocp
 
         out = self.JaggedArray.fromoffsets(offsets, self.Table.named("tuple", left, right))
         out._offsets = offsets
@@ -1369,8 +1375,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if isinstance(other, self.VirtualArray):
             other = other.array
         out = self._argcross(other)
-        out["0"] = out["0"] - self._starts
-        out["1"] = out["1"] - other._starts
+        out["0"] = out["0"] - self._starts.astype(self.INDEXTYPE)
+        out["1"] = out["1"] - other._starts.astype(self.INDEXTYPE)
 
         if nested:
             out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.tojagged(other.counts).flatten(), out._content))
-- 
2.43.0


From 71b9029169d1deacf01e13a69198dc985aeabd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 049/158] fix: argmin, argmax and argsort of chunked arrays
 with empty chunks and of jagged arrays with small integer starts

---
 awkward0/array/chunked.py | 51 +++++++++++++++++++++++++++++++--------
 awkward0/array/jagged.py  |  7 +++---
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 29447bf..e17923c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -433,7 +433,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         chunks.append(chunk)
 
             if len(chunks) == 0 and len(self._chunks) > 0:
-                chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that sliced.type == self.type
+                chunks.append(self._emptychunk(tail))
 
             return self.copy(chunks=chunks)
 
@@ -443,7 +443,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if len(head) == 0 and len(self._chunks) == 0:
                     return self.copy(chunks=[])[tail]
                 elif len(head) == 0:
-                    return self.copy(chunks=[self._chunks[0][(slice(0, 0),) + tail]])
+                    return self.copy(chunks=[self._emptychunk(tail)])
 
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
@@ -492,11 +492,24 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         if len(x) > 0:
                             chunks.append(x)
 
+                if len(chunks) == 0 and len(self._chunks) > 0:
+                    chunks.append(self._emptychunk(tail))
+
                 return self.copy(chunks=chunks)
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _emptychunk(self, tail):
+        # an empty selection still has a chunk, so that sliced.type == self.type
+        self.knowchunksizes()
+        for chunkid, chunk in enumerate(self._chunks):
+            if self._chunksizes[chunkid] > 0:
+                break
+        else:
+            chunk = self._chunks[0]
+        return chunk[(slice(0, 0),) + tail]
+
     def _aligned(self, what):
         self.knowchunksizes()
         what.knowchunksizes()
@@ -558,6 +571,17 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     batch.append(x)
             batches.append(batch)
 
+        if len(batches) == 0:
+            # no chunks, but the operation still determines a type for the empty result
+            batches.append([])
+            for x in inputs:
+                if isinstance(x, ChunkedArray):
+                    batches[0].append(self.numpy.empty(0, dtype=self.DEFAULTTYPE))
+                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and x.shape != ():
+                    batches[0].append(x[:0])
+                else:
+                    batches[0].append(x)
+
         out = None
         chunks = {}
         types = {}
@@ -718,19 +742,26 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmin() for x in self._chunks]
-            chunkid = self.numpy.argmin([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            return self._argminmax(self.numpy.argmin)
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmax() for x in self._chunks]
-            chunkid = self.numpy.argmax([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            return self._argminmax(self.numpy.argmax)
+
+    def _argminmax(self, function):
+        self.knowchunksizes()
+        best, positions = [], []
+        for chunkid, chunk in enumerate(self._chunks):
+            if self._chunksizes[chunkid] > 0:
+                chunk = chunk[:self._chunksizes[chunkid]]
+                local = chunk.argmin() if function is self.numpy.argmin else chunk.argmax()
+                best.append(chunk[local])
+                positions.append(self.offsets[chunkid] + local)
+        if len(best) == 0:
+            raise ValueError("cannot compute argmin or argmax of an empty array")
+        return positions[function(best)]
 
     def _prepare(self, ufunc, identity, dtype):
         self.knowchunksizes()
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 9e1ebdc..aa817ff 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1640,7 +1640,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         reducer = self.JaggedArray.min if ascending else self.JaggedArray.max
         localindex = self.localindex
         out = localindex.empty_like()
-        next_start = self.numpy.zeros_like(out.starts)
+        starts = self.numpy.array(out.starts, dtype=self.INDEXTYPE)
+        next_start = self.numpy.zeros_like(starts)
         tmp = self.copy()
         while tmp.content.size > 0:
             best = reducer(tmp) == tmp
@@ -1648,7 +1649,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 # put NaN last always
                 best = self.numpy.isnan(tmp)
             argbest = localindex[best]
-            idx = out.starts + next_start + argbest.localindex
+            idx = starts + next_start + argbest.localindex
             out._content[idx.flatten()] = argbest.content
             next_start += argbest.counts
             tmp = tmp[~best]
@@ -1656,7 +1657,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         # If masked entries were present, they would be dropped by the __getitem__
         # So we need to trim the size of the output array correspondingly
-        out.stops = out.starts + next_start
+        out.stops = starts + next_start
         return out
 
     @classmethod
-- 
2.43.0


From 8636fabb92b329c1a6ffbf8cdb43b546e9926b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 050/158] fix: a chunked array with only empty chunks has their
 type

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index e17923c..88d5255 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -223,7 +223,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if tpe is not None and not (isinstance(tpe, tuple) and len(tpe) == 0):
                     break
             else:
-                tpe = self.DEFAULTTYPE
+                tpe = awkward0.type.fromarray(self._chunks[0]).to if len(self._chunks) > 0 else self.DEFAULTTYPE
 
         for i in range(len(self._types)):
             if self._types[i] is None or (isinstance(self._types[i], tuple) and len(self._types[i]) == 0) or self._types[i] is tpe:
-- 
2.43.0


From 93dffed598b12417efebb3739b217605f60a12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 051/158] fix: derived information that went stale when parts
 of an array were reassigned

---
 awkward0/array/chunked.py |  2 ++
 awkward0/array/indexed.py |  1 +
 awkward0/array/jagged.py  |  1 +
 awkward0/array/masked.py  | 16 +++++++++-------
 awkward0/array/objects.py |  4 ++--
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 88d5255..995fa93 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -82,6 +82,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 raise TypeError("chunks must be iterable")
         self._chunks = [self._util_toarray(x, self.DEFAULTTYPE) for x in value]
         self._types = [None] * len(self._chunks)
+        self._chunksizes = []
+        self._offsets = None
 
     @property
     def chunksizes(self):
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 5dbc1b9..e3982d3 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -394,6 +394,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if value < 0:
                 raise ValueError("length must be a non-negative integer")
         self._length = value
+        self._inverse = None
 
     @property
     def index(self):
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index aa817ff..f55b3f4 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -452,6 +452,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._starts, self._stops = self.parents2startsstops(value)
         self._offsets, self._counts = None, None
         self._parents = value
+        self._isvalid = False
 
     @property
     def localindex(self):
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 9472094..37aa7c9 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -688,11 +688,11 @@ class IndexedMaskedArray(MaskedArray):
         out._maskedwhen = self._maskedwhen
         out._isvalid = self._isvalid
         if mask is not None:
-            out._mask = mask
+            out.mask = mask
         if content is not None:
-            out._content = content
+            out.content = content
         if maskedwhen is not None:
-            out._maskedwhen = maskedwhen
+            out.maskedwhen = maskedwhen
         return out
 
     def __awkward_serialize__(self, serializer):
@@ -738,6 +738,7 @@ class IndexedMaskedArray(MaskedArray):
             if not self._util_isinteger(value):
                 raise TypeError("maskedwhen must be an integer for IndexedMaskedArray")
         self._maskedwhen = value
+        self._isvalid = False
 
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
@@ -757,10 +758,11 @@ class IndexedMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._mask) != 0:
-                    if self._mask.max() > len(self._content):
-                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
-                    if (self._mask[self._mask != self._maskedwhen] < 0).any():
+                index = self._mask[self._mask != self._maskedwhen]
+                if len(index) != 0:
+                    if index.max() >= len(self._content):
+                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(index.max(), len(self._content)))
+                    if (index < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
 
                 self._isvalid = True
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index cedbe5f..af1fcce 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -361,7 +361,7 @@ def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
     else:
-        return decoder(x, errors="replace")[0]
+        return decoder(x, "replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
@@ -487,7 +487,7 @@ class StringArray(StringMethods, ObjectArray):
 
     def copy(self, starts=None, stops=None, content=None, encoding=None):
         out = self.__class__.__new__(self.__class__)
-        out._content = self.JaggedArray(self.starts, self.stops, self.content)
+        out._content = self._content.copy()
         out._generator = self._generator
         out._args = self._args
         out._kwargs = self._kwargs
-- 
2.43.0


From 1b1f8f9571af658d9362bbff50013fa79a11ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 052/158] fix: masked arrays whose content is longer than the
 mask, indexed masked arrays with other sentinels, and masked two-dimensional
 content

---
 awkward0/array/masked.py | 65 ++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 37aa7c9..ca8cc2f 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -226,7 +226,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], IndexedMaskedArray):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
-                inputs[i] = inputs[i]._content[tokeep]
+                inputs[i] = inputs[i]._content[:len(inputs[i])][tokeep]
             elif isinstance(inputs[i], self.numpy.ndarray) and inputs[i].shape == ():
                 pass
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
@@ -257,10 +257,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     @property
     def counts(self):
         self._valid()
-        content = self._util_counts(self._content)
-        out = self.numpy.full(self.shape, -1, dtype=content.dtype)
-        mask = self.boolmask(maskedwhen=False)
-        out[mask] = content[mask]
+        content = self._util_counts(self._unmaskedcontent())
+        out = self.numpy.full(len(self), -1, dtype=content.dtype)
+        out[self.boolmask(maskedwhen=False)] = content
         return out
 
     def choose(self, n):
@@ -292,7 +291,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[mask]
+        goodcontent = self._unmaskedcontent()
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -309,8 +308,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)
-        out[self.boolmask(maskedwhen=True)] = float("nan")
+        content = self._util_regular(self._unmaskedcontent())
+        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"), dtype=self.numpy.float64)
+        out[self.boolmask(maskedwhen=False)] = content
         return out
 
     def indexed(self):
@@ -382,6 +382,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         out = self._util_fillna(self._content, value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
+        out = out[:len(self)]
         out[self.boolmask(maskedwhen=True)] = value
         return out
 
@@ -532,6 +533,9 @@ class BitMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
+                if len(self._mask) < self._ceildiv8(len(self._content)):
+                    raise ValueError("mask length ({0} bytes) must be enough for one bit per element of the content (length {1})".format(len(self._mask), len(self._content)))
+
                 self._isvalid = True
 
     def __iter__(self, checkiter=True):
@@ -815,37 +819,16 @@ class IndexedMaskedArray(MaskedArray):
 
         else:
             maskindex = self._mask[head]
-            if tail != () and (maskindex == self._maskedwhen).any():
+            if tail == ():
+                return self.copy(mask=maskindex)
+            elif (maskindex == self._maskedwhen).any():
                 raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
             else:
-                return self.copy(mask=maskindex)
-
-    @property
-    def counts(self):
-        self._valid()
-        out = self._util_counts(self._content)[self._index]
-        out[self.boolmask(maskedwhen=True)] = -1
-        return out
-
-    def flatten(self, axis=0):
-        mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[self._mask[self._mask >= 0]]
-        content = self._util_flatten(goodcontent, axis)
-        counts = self._util_counts(goodcontent)
-        counts[counts < 0] = 1
-        augcounts = self.numpy.ones(len(self), dtype=self.INDEXTYPE)
-        augcounts[mask] = counts
-        augparents = self.JaggedArray.offsets2parents(self.JaggedArray.counts2offsets(augcounts))
-        augmask = mask[augparents]
-        index = self.numpy.cumsum(augmask) - 1
-        index[~augmask] = -1
-        return self.IndexedMaskedArray(index, content)
-
-    def regular(self):
-        self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)[self._index]
-        out[self.boolmask(maskedwhen=True)] = float("nan")
-        return out
+                if isinstance(head, slice):
+                    content = self._content[maskindex][(slice(None),) + tail]
+                else:
+                    content = self._content[(maskindex,) + tail]
+                return self.copy(mask=self.numpy.arange(len(content), dtype=self.INDEXTYPE), content=content, maskedwhen=-1)
 
     def indexed(self):
         return self
@@ -869,13 +852,9 @@ class IndexedMaskedArray(MaskedArray):
         out = self._util_fillna(self._content, value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
+        length = len(out)
         out = self.numpy.append(out, value)
-        if (self.mask < -1).any():
-            mask = self.mask.copy()
-            mask[mask < -1] = -1
-        else:
-            mask = self.mask
-        return out[mask]
+        return out[self.numpy.where(self.boolmask(maskedwhen=True), length, self._mask)]
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-- 
2.43.0


From 6bf9ff42f01e4233f7a79d4ca8fcb619da2b183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 053/158] fix: concatenate and cross of masked arrays whose
 content does not correspond one to one to the mask

---
 awkward0/array/masked.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index ca8cc2f..f4a6914 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -281,10 +281,10 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self.copy(content=self._content.argpairs(nested=nested))
 
     def cross(self, other, nested=False):
-        return self.copy(content=self._content.cross(other, nested=nested))
+        return self.copy(content=self._content[:len(self)].cross(other, nested=nested))
 
     def argcross(self, other, nested=False):
-        return self.copy(content=self._content.argcross(other, nested=nested))
+        return self.copy(content=self._content[:len(self)].argcross(other, nested=nested))
 
     def flattentuple(self):
         return self.copy(content=self._util_flattentuple(self._content))
@@ -390,7 +390,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, MaskedArray) for x in arrays)
         mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
-        content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays])
+        content = awkward0.array.base.AwkwardArray.concatenate([x._content[:len(x)] for x in arrays])
         return cls(mask, content, maskedwhen=True)
 
     _topandas_name = "MaskedSeries"
@@ -833,6 +833,22 @@ class IndexedMaskedArray(MaskedArray):
     def indexed(self):
         return self
 
+    def _crossindex(self):
+        # the other array has one item per item of this one, not per item of the content
+        self._valid()
+        unmasked = self.boolmask(maskedwhen=False)
+        index = self.numpy.full(len(self), -1, dtype=self.INDEXTYPE)
+        index[unmasked] = self.numpy.arange(self.numpy.count_nonzero(unmasked))
+        return unmasked, index
+
+    def cross(self, other, nested=False):
+        unmasked, index = self._crossindex()
+        return self.copy(mask=index, content=self._unmaskedcontent().cross(other[unmasked], nested=nested), maskedwhen=-1)
+
+    def argcross(self, other, nested=False):
+        unmasked, index = self._crossindex()
+        return self.copy(mask=index, content=self._unmaskedcontent().argcross(other[unmasked], nested=nested), maskedwhen=-1)
+
     def _unmaskedcontent(self):
         return self._content[self._mask[self.boolmask(maskedwhen=False)]]
 
-- 
2.43.0


From 74f5083dbdc4c4f0c698203712f8cd8bacb8e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 054/158] fix: chunked arrays: positions, fancy indexes with
 more dimensions, operands of the wrong length, empty chunks, and reserved
 space of appendable arrays

---
 awkward0/array/chunked.py | 147 ++++++++++++++++++++++++++------------
 1 file changed, 102 insertions(+), 45 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 995fa93..27f681d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -183,7 +183,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_isinteger(index):
             return self._chunks[chunkid], index - self.offsets[chunkid]
         else:
-            return self.numpy.array(self._chunks, dtype=self.numpy.object)[chunkid], index - self.offsets[chunkid]
+            chunks = self.numpy.empty(len(self._chunks), dtype=self.numpy.object_)
+            for i, chunk in enumerate(self._chunks):
+                chunks[i] = chunk
+            return chunks[chunkid], index - self.offsets[chunkid]
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
@@ -202,15 +205,16 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if len(index.shape) == 1 and self._util_isintegertype(index.dtype.type) and len(chunkid.shape) == 1 and self._util_isintegertype(chunkid.dtype.type):
                 if len(index) != len(chunkid):
                     raise ValueError("len(index) is {0} and len(chunkid) is {1}, but they should be equal".format(len(index), len(chunkid)))
+                if len(index) == 0:
+                    return self.numpy.empty(0, dtype=self.INDEXTYPE)
 
                 self.knowchunksizes(chunkid.max() + 1)
                 self._valid()
-                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
-                mask = (index < 0)
-                index[mask] += chunksizes[mask]
+                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)[chunkid]
+                index = self.numpy.where(index < 0, index + chunksizes, index)
                 if not ((0 <= index) & (index < chunksizes)).all():
                     raise IndexError("some local indexes are out of bounds")
-                return chunksizes[chunkid] + index
+                return self.offsets[chunkid] + index
 
             else:
                 raise TypeError("local2global requires index and chunkid to be integers or arrays of integers")
@@ -262,6 +266,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         offsets = self.offsets
         return [slice(start, stop) for start, stop in zip(offsets[:-1], offsets[1:])]
 
+    def _trimmed(self):
+        # chunks without any space that is reserved, but not filled yet
+        return self._chunks
+
     def _valid(self):
         if self.check_whole_valid:
             if len(self._chunksizes) > len(self._chunks):
@@ -298,7 +306,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
             else:
                 out = self.numpy.empty(self.shape, dtype=self.dtype)
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._trimmed(), self._slices()):
                     out[slc] = chunk
                 return out
         else:
@@ -331,7 +339,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 raise ValueError("A ChunkedArray can only be used as a slice of a ChunkedArray if they have the same chunk sizes")
             chunks = []
             chunksizes = []
-            for c, h in zip(self.chunks, head.chunks):
+            for c, h in zip(self._trimmed(), head._trimmed()):
                 if isinstance(c, awkward0.array.virtual.VirtualArray):
                     c = c.array
                 if isinstance(h, awkward0.array.virtual.VirtualArray):
@@ -397,6 +405,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     stop_chunkid = max(self.numpy.searchsorted(self.offsets, stop, "right") - 2, -1)
 
             offsets = self.offsets
+            trimmed = self._trimmed()
             chunks = []
             skip = 0
             for chunkid in range(start_chunkid, stop_chunkid, 1 if step > 0 else -1):
@@ -428,7 +437,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         skip = (-1 - local_start) % -step
 
                 # add a sliced chunk
-                chunk = self._chunks[chunkid][(slice(local_start, local_stop, step),)]
+                chunk = trimmed[chunkid][(slice(local_start, local_stop, step),)]
                 if len(chunk) > 0:
                     chunk = chunk[(slice(None),) + tail]
                     if len(chunk) > 0:
@@ -449,45 +458,43 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
-                diff = (chunkid[1:] - chunkid[:-1])
-                if (diff >= 0).all():
-                    diff2 = self.numpy.empty(len(chunkid), dtype=self.INDEXTYPE)
-                    diff2[0] = 1
-                    diff2[1:] = diff
-                    mask = (diff2 > 0)
-                    offsets = list(self.numpy.nonzero(mask)[0]) + [len(chunkid)]
-                    chunks = []
-                    for i, cid in enumerate(chunkid[mask]):
-                        localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][localindex])
-                    return self.copy(chunks=chunks)
-
-                elif self._util_isnumpy(self.type):
-                    out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
-                    self.knowchunksizes(chunkid.max() + 1)
-                    offsets = self.offsets
-
-                    for cid in self.numpy.unique(chunkid):
-                        mask = (chunkid == cid)
-                        out[mask] = self._chunks[cid][head[mask] - offsets[cid]]
+                # gather from one chunk at a time, in the order of the chunks
+                issorted = (chunkid[1:] >= chunkid[:-1]).all()
+                if issorted:
+                    order = slice(None)
+                else:
+                    order = self.numpy.argsort(chunkid, kind="mergesort")
+                    chunkid, head = chunkid[order], head[order]
+                tail = self._tailarrays(tail, len(head), order)
 
-                    if tail == ():
-                        return out
-                    else:
-                        return out[(slice(None),) + tail]
+                starts = self.numpy.ones(len(chunkid), dtype=self.MASKTYPE)
+                starts[1:] = (chunkid[1:] != chunkid[:-1])
+                offsets = list(self.numpy.nonzero(starts)[0]) + [len(chunkid)]
+                chunks = []
+                for i, cid in enumerate(chunkid[starts]):
+                    part = slice(offsets[i], offsets[i + 1])
+                    localtail = tuple(x[part] if isinstance(x, self.numpy.ndarray) else x for x in tail)
+                    chunks.append(self._chunks[cid][(head[part] - self.offsets[cid],) + localtail])
 
-                elif tail == ():
-                    return self.IndexedArray(head, self)
+                if issorted:
+                    return self.copy(chunks=chunks)
 
+                inverse = self.numpy.empty(len(order), dtype=self.INDEXTYPE)
+                inverse[order] = self.numpy.arange(len(order), dtype=self.INDEXTYPE)
+                if all(isinstance(x, self.numpy.ndarray) for x in chunks):
+                    return self.numpy.concatenate(chunks)[inverse]
                 else:
-                    raise NotImplementedError
+                    return self.IndexedArray(inverse, self.copy(chunks=chunks))
 
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
                     raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
 
+                if any(not isinstance(x, slice) and not self._util_isinteger(x) for x in tail):
+                    return self[(self.numpy.nonzero(head)[0],) + tail]
+
                 chunks = []
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._trimmed(), self._slices()):
                     x = chunk[head[slc]]
                     if len(x) > 0:
                         x = x[(slice(None),) + tail]
@@ -502,6 +509,24 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _tailarrays(self, tail, length, order):
+        # arrays that follow an array of indexes select one item for each of those indexes
+        out = []
+        for x in tail:
+            if not isinstance(x, slice) and not self._util_isinteger(x):
+                x = self.numpy.array(x, copy=False)
+                if len(x.shape) != 1:
+                    raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(x.shape, x.dtype))
+                if issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
+                    x = self.numpy.nonzero(x)[0]
+                if len(x) == 1:
+                    x = self.numpy.full(length, x[0], dtype=x.dtype)
+                elif len(x) != length:
+                    raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes ({0},) ({1},)".format(length, len(x)))
+                x = x[order]
+            out.append(x)
+        return tuple(out)
+
     def _emptychunk(self, tail):
         # an empty selection still has a chunk, so that sliced.type == self.type
         self.knowchunksizes()
@@ -510,7 +535,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 break
         else:
             chunk = self._chunks[0]
-        return chunk[(slice(0, 0),) + tail]
+        if isinstance(chunk, self.numpy.ndarray):
+            return chunk[(slice(0, 0),) + tail]
+        else:
+            return chunk[(slice(0, 0),)][(slice(None),) + tail]
 
     def _aligned(self, what):
         self.knowchunksizes()
@@ -559,12 +587,30 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             # perhaps split at the largest possible slices such that all of them are one chunk each, and then unpack the single chunk after slicing
             raise ValueError("ChunkedArrays can only be combined if they have the same chunk sizes")
 
+        inputs = list(inputs)
+        for i, x in enumerate(inputs):
+            if not isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                try:
+                    for y in x:
+                        break
+                except TypeError:
+                    continue
+                else:
+                    x = inputs[i] = self.numpy.array(x, copy=False)
+            if isinstance(x, self.numpy.ndarray) and x.shape[:1] == (1,):
+                x = inputs[i] = x[0]
+            elif isinstance(x, ChunkedArray) or (isinstance(x, self.numpy.ndarray) and x.shape == ()):
+                pass
+            elif len(x) != len(first):
+                raise ValueError("cannot combine ChunkedArray of length {0} with array of length {1}".format(len(first), len(x)))
+
         batches = []
+        trimmed = dict((id(x), x._trimmed()) for x in inputs if isinstance(x, ChunkedArray))
         for i, slc in enumerate(first._slices()):
             batch = []
             for x in inputs:
                 if isinstance(x, ChunkedArray):
-                    batch.append(x._chunks[i])
+                    batch.append(trimmed[id(x)][i])
                 elif isinstance(x, self.numpy.ndarray) and x.shape == ():
                     batch.append(x)
                 elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
@@ -623,10 +669,14 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     @property
     def counts(self):
-        return self.numpy.concatenate([self._util_counts(x) for x in self._chunks])
+        if len(self._chunks) == 0:
+            return self.numpy.empty(0, dtype=self.INDEXTYPE)
+        return self.numpy.concatenate([self._util_counts(x) for x in self._trimmed()])
 
     def boolmask(self, maskedwhen=True):
-        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._chunks])
+        if len(self._chunks) == 0:
+            return self.numpy.empty(0, dtype=self.MASKTYPE)
+        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._trimmed()])
 
     def choose(self, n):
         out = self.copy(chunks=[x.choose(n) for x in self._chunks])
@@ -690,16 +740,18 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         return self.copy(chunks=[self._util_flattentuple(x) for x in self._chunks], chunksizes=self._chunksizes)
 
     def flatten(self, axis=0):
-        out = self.copy(chunks=[self._util_flatten(x, axis) for x in self._chunks])
+        out = self.copy(chunks=[self._util_flatten(x, axis) for x in self._trimmed()])
         out.knowchunksizes()
         return out
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self.copy(chunks=[self._util_pad(x, length, maskedwhen, clip, axis) for x in self._chunks], chunksizes=self.chunksizes)
+        return self.copy(chunks=[self._util_pad(x, length, maskedwhen, clip, axis) for x in self._trimmed()], chunksizes=self.chunksizes)
 
     def regular(self):
         self._valid()
-        return self.numpy.concatenate([self._util_regular(x) for x in self._chunks])
+        if len(self._chunks) == 0:
+            return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
+        return self.numpy.concatenate([self._util_regular(x) for x in self._trimmed()])
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
@@ -707,7 +759,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if self._chunksizes[chunkid] > 0:
                 return self._util_hasjagged(self._chunks[chunkid])
         else:
-            return False
+            return len(self._chunks) != 0 and self._util_hasjagged(self._chunks[0])
 
     def _reduce(self, ufunc, identity, dtype):
         self.knowchunksizes()
@@ -795,6 +847,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             self.knowchunksizes(chunkid + 1)
             if self._chunksizes[chunkid] > 0:
                 return self._util_columns_descend(self._chunks[chunkid], seen)
+        if len(self._chunks) != 0:
+            return self._util_columns_descend(self._chunks[0], seen)
         return []
 
     def _util_rowname(self, seen):
@@ -804,6 +858,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             self.knowchunksizes(chunkid + 1)
             if self._chunksizes[chunkid] > 0:
                 return self._util_rowname_descend(self._chunks[chunkid], seen)
+        if len(self._chunks) != 0:
+            return self._util_rowname_descend(self._chunks[0], seen)
+        raise TypeError("not a Table, so there is no rowname")
 
     def astype(self, dtype):
         chunks = []
-- 
2.43.0


From e53e405e6bd699e460708f4b025e583f4e3b2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 055/158] fix: operators of a jagged array with jagged arrays
 wrapped in other classes, regular of chunked arrays with empty chunks

---
 awkward0/array/chunked.py |  5 +++--
 awkward0/array/jagged.py  | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 27f681d..d94a0e0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -597,7 +597,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     continue
                 else:
                     x = inputs[i] = self.numpy.array(x, copy=False)
-            if isinstance(x, self.numpy.ndarray) and x.shape[:1] == (1,):
+            if isinstance(x, self.numpy.ndarray) and x.shape == (1,):
                 x = inputs[i] = x[0]
             elif isinstance(x, ChunkedArray) or (isinstance(x, self.numpy.ndarray) and x.shape == ()):
                 pass
@@ -751,7 +751,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self._valid()
         if len(self._chunks) == 0:
             return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
-        return self.numpy.concatenate([self._util_regular(x) for x in self._trimmed()])
+        nonempty = [x for x in self._trimmed() if len(x) != 0]
+        return self.numpy.concatenate([self._util_regular(x) for x in (nonempty if len(nonempty) != 0 else self._chunks[:1])])
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f55b3f4..5ac2d24 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -971,6 +971,23 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             out._parents = parents
             return out
 
+    @classmethod
+    def _util_unwrapjagged(cls, array):
+        # a JaggedArray may be wrapped in classes that do not change its high-level type
+        while cls._util_hasjagged(array) and isinstance(array, (cls.ChunkedArray.fget(None), cls.IndexedArray.fget(None), cls.VirtualArray.fget(None))):
+            if isinstance(array, cls.VirtualArray.fget(None)):
+                array = array.array
+            elif isinstance(array, cls.IndexedArray.fget(None)):
+                array._valid()
+                array = array._content[array._index]
+            else:
+                array._valid()
+                chunks = [cls._util_unwrapjagged(x) for x in array._chunks if len(x) != 0]
+                if len(chunks) == 0:
+                    chunks = [array._chunks[0]]
+                array = chunks[0] if len(chunks) == 1 else awkward0.array.base.AwkwardArray.concatenate(chunks)
+        return array
+
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         import awkward0.array.objects
         import awkward0.array.table
@@ -981,6 +998,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        inputs = [self._util_unwrapjagged(x) for x in inputs]
+        if any(isinstance(x, self.MaskedArray) and self._util_hasjagged(x) for x in inputs):
+            return NotImplemented    # whole lists are missing; MaskedArray.__array_ufunc__ takes care of them
+
         starts, stops = None, None
         for i in range(len(inputs)):
             if isinstance(inputs[i], JaggedArray):
-- 
2.43.0


From bbbf6d22930783b2e130aa390bbda93768570eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 056/158] fix: an empty selection of an indexed array has the
 structure of its content

---
 awkward0/array/chunked.py | 2 +-
 awkward0/array/indexed.py | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index d94a0e0..65368f0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -452,7 +452,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             head = self.numpy.array(head, copy=False)
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 if len(head) == 0 and len(self._chunks) == 0:
-                    return self.copy(chunks=[])[tail]
+                    return self.copy(chunks=[])
                 elif len(head) == 0:
                     return self.copy(chunks=[self._emptychunk(tail)])
 
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index e3982d3..cc54ee5 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -155,11 +155,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             where = (where,)
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
-        head = self._index[head]
-        if len(head.shape) != 0 and len(head) == 0:
-            return self.numpy.empty(0, dtype=self._content.dtype)[tail]
-        else:
-            return self._content[(head,) + tail]
+        return self._content[(self._index[head],) + tail]
 
     def _invert(self, what):
         if self._inverse is None:
-- 
2.43.0


From 919db64cabfb8f49a08db5984afbfdedeb613bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:53 +0000
Subject: [PATCH 057/158] fix: selections, copies and derived arrays of an
 appendable array never show or share its reserved space

---
 awkward0/array/chunked.py | 88 ++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 65368f0..4fc4e19 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -270,6 +270,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         # chunks without any space that is reserved, but not filled yet
         return self._chunks
 
+    def _withchunks(self, chunks, chunksizes=None):
+        # the same kind of array with other chunks
+        return self.copy(chunks=chunks, chunksizes=chunksizes)
+
     def _valid(self):
         if self.check_whole_valid:
             if len(self._chunksizes) > len(self._chunks):
@@ -324,7 +328,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 chunks.append(chunk[where])
                 chunksizes.append(len(chunks[-1]))
             if len(chunks) == 0:
-                return self.copy(chunks=chunks, chunksizes=chunksizes)
+                return self._withchunks(chunks=chunks, chunksizes=chunksizes)
             else:
                 return awkward0.array.objects.Methods.maybemixin(type(chunks[0]), self.ChunkedArray)(chunks, chunksizes=chunksizes)
 
@@ -346,7 +350,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     h = h.array
                 chunks.append(c[(h,) + tail])
                 chunksizes.append(len(chunks[-1]))
-            return self.copy(chunks=chunks, chunksizes=chunksizes)
+            return self._withchunks(chunks=chunks, chunksizes=chunksizes)
 
         if self._util_isinteger(head):
             chunk, localhead = self.global2local(head)
@@ -446,15 +450,15 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if len(chunks) == 0 and len(self._chunks) > 0:
                 chunks.append(self._emptychunk(tail))
 
-            return self.copy(chunks=chunks)
+            return self._withchunks(chunks=chunks)
 
         else:
             head = self.numpy.array(head, copy=False)
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 if len(head) == 0 and len(self._chunks) == 0:
-                    return self.copy(chunks=[])
+                    return self._withchunks(chunks=[])
                 elif len(head) == 0:
-                    return self.copy(chunks=[self._emptychunk(tail)])
+                    return self._withchunks(chunks=[self._emptychunk(tail)])
 
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
@@ -477,14 +481,14 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks.append(self._chunks[cid][(head[part] - self.offsets[cid],) + localtail])
 
                 if issorted:
-                    return self.copy(chunks=chunks)
+                    return self._withchunks(chunks=chunks)
 
                 inverse = self.numpy.empty(len(order), dtype=self.INDEXTYPE)
                 inverse[order] = self.numpy.arange(len(order), dtype=self.INDEXTYPE)
                 if all(isinstance(x, self.numpy.ndarray) for x in chunks):
                     return self.numpy.concatenate(chunks)[inverse]
                 else:
-                    return self.IndexedArray(inverse, self.copy(chunks=chunks))
+                    return self.IndexedArray(inverse, self._withchunks(chunks=chunks))
 
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
@@ -504,7 +508,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if len(chunks) == 0 and len(self._chunks) > 0:
                     chunks.append(self._emptychunk(tail))
 
-                return self.copy(chunks=chunks)
+                return self._withchunks(chunks=chunks)
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
@@ -679,32 +683,32 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._trimmed()])
 
     def choose(self, n):
-        out = self.copy(chunks=[x.choose(n) for x in self._chunks])
+        out = self._withchunks(chunks=[x.choose(n) for x in self._chunks])
         out.knowchunksizes()
         return out
 
     def argchoose(self, n):
-        out = self.copy(chunks=[x.argchoose(n) for x in self._chunks])
+        out = self._withchunks(chunks=[x.argchoose(n) for x in self._chunks])
         out.knowchunksizes()
         return out
 
     def distincts(self, nested=False):
-        out = self.copy(chunks=[x.distincts(nested=nested) for x in self._chunks])
+        out = self._withchunks(chunks=[x.distincts(nested=nested) for x in self._chunks])
         out.knowchunksizes()
         return out
 
     def argdistincts(self, nested=False):
-        out = self.copy(chunks=[x.argdistincts(nested=nested) for x in self._chunks])
+        out = self._withchunks(chunks=[x.argdistincts(nested=nested) for x in self._chunks])
         out.knowchunksizes()
         return out
 
     def pairs(self, nested=False):
-        out = self.copy(chunks=[x.pairs(nested=nested) for x in self._chunks])
+        out = self._withchunks(chunks=[x.pairs(nested=nested) for x in self._chunks])
         out.knowchunksizes()
         return out
 
     def argpairs(self, nested=False):
-        out = self.copy(chunks=[x.argpairs(nested=nested) for x in self._chunks])
+        out = self._withchunks(chunks=[x.argpairs(nested=nested) for x in self._chunks])
         out.knowchunksizes()
         return out
 
@@ -720,7 +724,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 h = h.array
             chunks.append(c.cross(h, nested=nested))
             chunksizes.append(len(chunks[-1]))
-        return self.copy(chunks=chunks, chunksizes=chunksizes)
+        return self._withchunks(chunks=chunks, chunksizes=chunksizes)
 
     def argcross(self, other, nested=False):
         if not isinstance(other, ChunkedArray) or not self._aligned(other):
@@ -734,18 +738,18 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 h = h.array
             chunks.append(c.argcross(h, nested=nested))
             chunksizes.append(len(chunks[-1]))
-        return self.copy(chunks=chunks, chunksizes=chunksizes)
+        return self._withchunks(chunks=chunks, chunksizes=chunksizes)
 
     def flattentuple(self):
-        return self.copy(chunks=[self._util_flattentuple(x) for x in self._chunks], chunksizes=self._chunksizes)
+        return self._withchunks(chunks=[self._util_flattentuple(x) for x in self._chunks], chunksizes=self._chunksizes)
 
     def flatten(self, axis=0):
-        out = self.copy(chunks=[self._util_flatten(x, axis) for x in self._trimmed()])
+        out = self._withchunks(chunks=[self._util_flatten(x, axis) for x in self._trimmed()])
         out.knowchunksizes()
         return out
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self.copy(chunks=[self._util_pad(x, length, maskedwhen, clip, axis) for x in self._trimmed()], chunksizes=self.chunksizes)
+        return self._withchunks(chunks=[self._util_pad(x, length, maskedwhen, clip, axis) for x in self._trimmed()], chunksizes=self.chunksizes)
 
     def regular(self):
         self._valid()
@@ -772,7 +776,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 this = chunk._reduce(ufunc, identity, dtype)
                 if len(this) > 0:
                     chunks.append(this)
-            return self.copy(chunks=chunks)
+            return self._withchunks(chunks=chunks)
 
         combine = self.numpy.add if ufunc is None or ufunc is self.numpy.count_nonzero else ufunc
 
@@ -795,13 +799,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def argmin(self):
         if self._util_hasjagged(self):
-            return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
+            return self._withchunks(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
         else:
             return self._argminmax(self.numpy.argmin)
 
     def argmax(self):
         if self._util_hasjagged(self):
-            return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
+            return self._withchunks(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
         else:
             return self._argminmax(self.numpy.argmax)
 
@@ -871,7 +875,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 self._chunksizes.append(len(chunk))
             chunks.append(chunk.astype(dtype))
             chunksizes.append(self._chunksizes[i])
-        return self.copy(chunks=chunks, chunksizes=chunksizes)
+        return self._withchunks(chunks=chunks, chunksizes=chunksizes)
 
     def fillna(self, value):
         chunks = []
@@ -881,7 +885,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 self._chunksizes.append(len(chunk))
             chunks.append(self._util_fillna(chunk, value))
             chunksizes.append(self._chunksizes[i])
-        return self.copy(chunks=chunks, chunksizes=chunksizes)
+        return self._withchunks(chunks=chunks, chunksizes=chunksizes)
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
@@ -915,21 +919,34 @@ class AppendableArray(ChunkedArray):
         self.dtype = dtype
         self.chunks = chunks
 
-    def copy(self, chunkshape=None, dtype=None, chunks=None):
+    def copy(self, chunkshape=None, dtype=None, chunks=None, chunksizes=None):
         out = self.__class__.__new__(self.__class__)
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
-        out._chunks = list(self._chunks)
+        out._chunks = self._trimmed()       # what gets appended to the copy must not go into the original's reserved space
+        out._chunksizes = list(self._chunksizes)
+        out._types = list(self._types)
         if chunkshape is not None:
-            out._chunkshape = chunkshape
+            out.chunkshape = chunkshape
         if dtype is not None:
-            out._dtype = dtype
+            out.dtype = dtype
         if chunks is not None:
             out.chunks = chunks
-        out._chunksizes = list(self._chunksizes)
-        out._types = list(self._types)
+        if chunksizes is not None:
+            if list(chunksizes) != out._chunksizes:
+                out._chunks = [x[:size] for x, size in zip(out._chunks, chunksizes)]
+                out._chunksizes = [len(x) for x in out._chunks]
         return out
 
+    def _trimmed(self):
+        return [x if len(x) == size else x[:size] for x, size in zip(self._chunks, self._chunksizes)]
+
+    def _withchunks(self, chunks, chunksizes=None):
+        if all(isinstance(x, self.numpy.ndarray) and x.dtype == self._dtype and x.shape[1:] == self._chunkshape[1:] for x in chunks):
+            return self.copy(chunks=chunks, chunksizes=chunksizes)
+        else:
+            return ChunkedArray(chunks, [] if chunksizes is None else chunksizes)
+
     def _mine(self, overrides):
         mine = {}
         mine["chunkshape"] = overrides.pop("chunkshape", self._chunkshape)
@@ -1021,7 +1038,10 @@ class AppendableArray(ChunkedArray):
         return self.JaggedArray.counts2offsets(self._chunksizes)
 
     def _gettype(self, seen):
-        return self._dtype
+        out = self._dtype
+        for x in self._chunkshape[:0:-1]:
+            out = awkward0.type.ArrayType(x, out)
+        return out
 
     def _util_layout(self, position, seen, lookup):
         positions = []
@@ -1055,6 +1075,8 @@ class AppendableArray(ChunkedArray):
         self._chunksizes[-1] += 1
 
     def extend(self, values):
+        if values is self:
+            values = self.copy()
         while len(values) > 0:
             if len(self._chunks) == 0 or self._chunksizes[-1] == len(self._chunks[-1]):
                 self._types.append(None)
@@ -1071,12 +1093,12 @@ class AppendableArray(ChunkedArray):
 
     def astype(self, dtype):
         chunks = []
-        for chunk in self._chunks:
+        for chunk in self._trimmed():
             chunks.append(chunk.astype(dtype))
         return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks)
 
     def fillna(self, value):
         chunks = []
-        for chunk in self._chunks:
+        for chunk in self._trimmed():
             chunks.append(self._util_fillna(chunk, value))
         return self.copy(chunks=chunks)
-- 
2.43.0


From bea400c8989bf53c1d3acd78d7b4ec8c5f040c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 058/158] fix: zeros_like and ones_like of appendable arrays,
 chunked multidimensional arrays as Numpy arrays

---
 awkward0/array/chunked.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 4fc4e19..90f2a6c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -42,19 +42,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def zeros_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def ones_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
@@ -305,6 +305,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __array__(self, *args, **kwargs):
         self._checktonumpy()
 
+        if len(self._chunks) != 0 and all(isinstance(x, self.numpy.ndarray) for x in self._chunks):
+            self.knowchunksizes()
+            return self.numpy.concatenate(self._trimmed())
+
         if isinstance(self.type.to, self.numpy.dtype):
             if len(self) == 0:
                 return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
-- 
2.43.0


From f50595bcbda04239bda1e2709af9a97336508e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 059/158] fix: concatenation of appendable arrays, reduction of
 an empty appendable array

---
 awkward0/array/chunked.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 90f2a6c..6744248 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -898,8 +898,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             chunksizes = [y for x in arrays for y in x._chunksizes]
         else:
             chunksizes = []
-        chunks = [y for x in arrays for y in x._chunks]
-        return cls(chunks, chunksizes)
+        chunks = [y for x in arrays for y in x._trimmed()]
+        return ChunkedArray(chunks, chunksizes)
 
     _topandas_name = "ChunkedSeries"
 
@@ -1095,6 +1095,12 @@ class AppendableArray(ChunkedArray):
     def _hasjagged(self):
         return False
 
+    def _reduce(self, ufunc, identity, dtype):
+        if len(self._chunks) == 0:
+            return self._util_reduce(self.numpy.empty((0,) + self._chunkshape[1:], dtype=self._dtype), ufunc, identity, dtype)
+        else:
+            return super(AppendableArray, self)._reduce(ufunc, identity, dtype)
+
     def astype(self, dtype):
         chunks = []
         for chunk in self._trimmed():
-- 
2.43.0


From c4eb9cd0e2e876ef88fb107dba318fe067032320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:02 +0000
Subject: [PATCH 060/158] fix: selecting a list of columns from a row of a
 Table, dir of a row

---
 awkward0/array/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 8e39690..af1fb1e 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import keyword
 import numbers
 import re
 import types
@@ -80,7 +81,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 except KeyError:
                     raise ValueError("no column named {0}".format(repr(where)))
 
-            elif self._util_isstringslice(where):
+            elif self._table._util_isstringslice(where):
                 contents = OrderedDict()
                 for n in where:
                     try:
-- 
2.43.0


From ed5268f9b0cbd0ab71c15081318340c0af8001b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:44 +0000
Subject: [PATCH 061/158] fix: a refused change of several columns leaves the
 Table as it was

---
 awkward0/array/base.py   |  3 +--
 awkward0/array/jagged.py |  5 +++--
 awkward0/array/table.py  | 10 ++++++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 403c28d..3067e4d 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -743,8 +743,7 @@ class AwkwardArrayWithContent(AwkwardArray):
         if isinstance(where, awkward0.util.string):
             del self._content[where]
         elif self._util_isstringslice(where):
-            for x in where:
-                del self._content[x]
+            del self._content[where]
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
 
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 5ac2d24..9217ce6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -825,8 +825,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
-                self._content[x] = self.tojagged(y)._content
+            columns = [self.tojagged(y)._content for y in what]
+            for x, y in zip(where, columns):
+                self._content[x] = y
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index af1fb1e..4bc4bec 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -646,12 +646,15 @@ class Table(awkward0.array.base.AwkwardArray):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
+            columns = []
+            for y in what:
                 try:
                     len(y)
                 except TypeError:
                     y = self.numpy.full(len(self), y)
-                self._contents[x] = self._util_toarray(y, self.DEFAULTTYPE)
+                columns.append(self._util_toarray(y, self.DEFAULTTYPE))
+            for x, y in zip(where, columns):
+                self._contents[x] = y
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
@@ -663,6 +666,9 @@ class Table(awkward0.array.base.AwkwardArray):
         if isinstance(where, awkward0.util.string):
             del self._contents[where]
         elif self._util_isstringslice(where):
+            for x in where:
+                if x not in self._contents:
+                    raise KeyError(x)
             for x in where:
                 del self._contents[x]
         else:
-- 
2.43.0


From d3aec7a30fd014577f50c0d7c07e9419c6e48c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:21 +0000
Subject: [PATCH 062/158] fix: concatenation of Tables whose columns have
 different lengths, regular of a Table

---
 awkward0/array/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 4bc4bec..908bbea 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -791,7 +791,7 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        pairs = [(n, self._util_regular(x)) for n, x in self.items()]
+        pairs = [(n, self._util_regular(x[self._index()])) for n, x in self._contents.items()]
         out = self.numpy.empty(len(self), [(n, x.dtype, x.shape[1:]) for n, x in pairs])
         for n, x in pairs:
             out[n] = x
@@ -911,7 +911,7 @@ class Table(awkward0.array.base.AwkwardArray):
             else:
                 concatenate = content_type.concatenate
 
-            out._contents[n] = concatenate([t[n] for t in tables], axis=0)
+            out._contents[n] = concatenate([t._contents[n][t._index()] for t in tables], axis=0)
 
         out._valid()
         return out
-- 
2.43.0


From 7bea9f09173c43dcf248c7b502242ba055088e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:27 +0000
Subject: [PATCH 063/158] fix: empty views of a Table, rows of a view in a
 ufunc, index given to a Table is not modified

---
 awkward0/array/table.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 908bbea..52f0369 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -111,7 +111,9 @@ class Table(awkward0.array.base.AwkwardArray):
             inputs = list(inputs)
             for i in range(len(inputs)):
                 if isinstance(inputs[i], Table.Row):
-                    inputs[i] = inputs[i]._table[inputs[i]._index : inputs[i]._index + 1]
+                    table, index = inputs[i]._table, inputs[i]._index
+                    inputs[i] = table.copy(contents=table._contents)
+                    inputs[i]._view = index, 1, 1
 
             result = getattr(ufunc, method)(*inputs, **kwargs)
 
@@ -463,6 +465,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         elif isinstance(self._view, tuple):
             start, step, length = self._view
+            if length == 0:
+                return slice(0)
             stop = start + step*length
             if stop < 0:
                 stop = None
@@ -530,7 +534,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 length = self._length()
                 negative = (head < 0)
                 if negative.any():
-                    head[negative] += length
+                    head = self.numpy.where(negative, head + length, head)
                 if not self.numpy.bitwise_and(0 <= head, head < length).all():
                     raise IndexError("some indexes out of bounds for length {0}".format(length))
 
@@ -805,18 +809,7 @@ class Table(awkward0.array.base.AwkwardArray):
             contents = OrderedDict()
             for n, x in out._contents.items():
                 if isinstance(x, Table) and x.istuple:
-                    if x._view is None:
-                        view = slice(x._length())
-
-                    elif isinstance(x._view, tuple):
-                        start, step, length = x._view
-                        stop = start + step*length
-                        if stop < 0:
-                            stop = None
-                        view = slice(start, stop, step)
-
-                    else:
-                        view = x._view
+                    view = x._index()
 
                     for y in x._contents.values():
                         contents[str(len(contents))] = y[view]
-- 
2.43.0


From 58798448a3f442e9cb2faf6587cbf5d58c21ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 064/158] fix: a column assigned to a UnionArray of Tables goes
 to the rows it was given for

---
 awkward0/array/union.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 6c0bc43..793e761 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -326,17 +326,19 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if isinstance(where, awkward0.util.string):
             for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                self._contents[tag][where] = self.IndexedArray(inverseindex, what)
+                mask = (self._tags == tag)
+                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
+                self._contents[tag][where] = self.IndexedArray(inverseindex, what[mask])
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
+                mask = (self._tags == tag)
+                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
                 for x, y in zip(where, what):
-                    self._contents[tag][x] = self.IndexedArray(inverseindex, y)
+                    self._contents[tag][x] = self.IndexedArray(inverseindex, y[mask])
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-- 
2.43.0


From b18dbd6c7eb9ab5503f5ea7ff3e449bac2adb17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 065/158] fix: SparseArray: dense form of nested content,
 documented defaults, multidimensional selections, assigned columns

---
 awkward0/array/indexed.py | 119 ++++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 42 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index cc54ee5..e00c1f1 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -343,8 +343,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def empty_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.empty_like(self._content), **mine)
         else:
@@ -352,8 +352,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def zeros_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._util_likedefault(0))
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.zeros_like(self._content), **mine)
         else:
@@ -361,13 +361,21 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def ones_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._util_likedefault(1))
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.ones_like(self._content), **mine)
         else:
             return self.copy(content=self._content.ones_like(**overrides), **mine)
 
+    def _util_likedefault(self, value):
+        if not isinstance(self._content, self.numpy.ndarray) or (self._default is None and value == 0):
+            return self._default
+        elif self._content.shape[1:] == ():
+            return self._content.dtype.type(value)
+        else:
+            return self.numpy.full(self._content.shape[1:], value, dtype=self._content.dtype)
+
     def __awkward_serialize__(self, serializer):
         self._valid()
         return serializer.encode_call(
@@ -423,11 +431,17 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @property
     def default(self):
-        import awkward0.array.jagged
-
         if self._default is None:
             if isinstance(self._content, awkward0.array.jagged.JaggedArray):
                 return self._content.content[:0]
+            elif isinstance(self._content, awkward0.array.masked.MaskedArray):
+                return self._content.masked
+            elif isinstance(self._content, awkward0.array.objects.StringArray):
+                return b"" if self._content.encoding is None else ""
+            elif isinstance(self._content, awkward0.array.objects.ObjectArray):
+                return None
+            elif isinstance(self._content, awkward0.array.table.Table):
+                return self._util_defaultarray()[0]
             elif self._content.shape[1:] == ():
                 return self._content.dtype.type(0)
             else:
@@ -442,6 +456,19 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     def default(self, value):
         self._default = value
 
+    def _util_defaultarray(self):
+        # an array with the default as its only element
+        if self._default is None and isinstance(self._content, awkward0.array.jagged.JaggedArray):
+            return self.JaggedArray([0], [0], self._content.content)
+        elif self._default is None and isinstance(self._content, awkward0.array.table.Table):
+            out = self._content.copy(contents={})
+            out._view = None
+            for n in self._content.columns:
+                out._contents[n] = self.SparseArray(1, [], self._content[n])
+            return out
+        else:
+            return self.numpy.array([self.default])
+
     def _gettype(self, seen):
         return awkward0.type._fromarray(self._content, seen)
 
@@ -515,6 +542,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         if isinstance(head, SparseArray) and issubclass(head.dtype.type, (self.numpy.bool_, self.numpy.bool)) and head.default:
             head = head.dense
 
+        if tail != () and not self._util_isinteger(head):
+            return self.dense[where]
+
         if self._util_isinteger(head):
             original_head = head
             if head < 0:
@@ -555,13 +585,16 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 index, remainder = self.numpy.divmod(index, abs(step))
                 mask[remainder != 0] = False
 
+            if step < 0:
+                mask[1:] &= (self._index[1:] != self._index[:-1])     # only the first of several with the same position counts
+
             index = index[mask]
             content = self._content[:len(self._index)][mask]
             if step < 0:
                 index = index[::-1]
                 content = content[::-1]
 
-            return self.copy(length=length, index=index, content=content)[tail]
+            return self.copy(length=length, index=index, content=content)
 
         elif isinstance(head, SparseArray) and len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
             head._valid()
@@ -575,7 +608,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             mask = (index < len(keep))
             mask[mask] = (keep[index[mask]] == self._index[mask])
 
-            return self.copy(length=len(keep), index=index[mask], content=self._content[:len(self._index)][mask])[tail]
+            return self.copy(length=len(keep), index=index[mask], content=self._content[:len(self._index)][mask])
 
         else:
             head = self._util_toarray(head, self.INDEXTYPE)
@@ -601,12 +634,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 tags[explicit] = 1
                 index[explicit] = self.numpy.arange(self.numpy.count_nonzero(explicit))
 
-                content = self._content[match[explicit]]
-                if self._default is None and isinstance(self._content, self.JaggedArray):
-                    default = self.JaggedArray([0], [0], self._content.content)
-                else:
-                    default = self.numpy.array([self.default])
-                return self.UnionArray(tags, index, [default, content])[tail]
+                return self.UnionArray(tags, index, [self._util_defaultarray(), self._content[match[explicit]]])
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
@@ -623,15 +651,33 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if isinstance(self._content, self.numpy.ndarray):
-            out = self.numpy.full(self.shape, self.default, dtype=self.dtype)
-            if len(self._index) != 0:
-                mask = self.boolmask(maskedwhen=True)
-                out[mask] = self._content[self._inverse[mask]]
+            return self._util_todense(self._content, self.default)
+
+        elif self._default is None and isinstance(self._content, awkward0.array.jagged.JaggedArray) and len(self._content._starts.shape) == 1:
+            starts = self._util_todense(self._content._starts, 0)
+            stops = self._util_todense(self._content._stops[:len(self._content._starts)], 0)
+            return self._content.copy(starts=starts, stops=stops)
+
+        elif self._default is None and isinstance(self._content, awkward0.array.masked.MaskedArray):
+            return self.IndexedMaskedArray(self.numpy.where(self.boolmask(maskedwhen=True), self._getinverse(), -1), self._content)
+
+        elif self._default is None and isinstance(self._content, awkward0.array.table.Table):
+            out = self._content.copy(contents={})
+            out._view = None
+            for n in self._content.columns:
+                out._contents[n] = self.copy(content=self._content[n]).dense
             return out
 
         else:
             raise NotImplementedError(type(self._content))
 
+    def _util_todense(self, array, default):
+        out = self.numpy.full((self._length,) + array.shape[1:], default, dtype=array.dtype)
+        if len(self._index) != 0:
+            mask = self.boolmask(maskedwhen=True)
+            out[mask] = array[self._getinverse()[mask]]
+        return out
+
     def boolmask(self, maskedwhen=True):
         self._valid()
 
@@ -648,13 +694,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign array of length {0} to sparse table of length {1}".format(len(what), self._length))
 
         test = what[self.boolmask(maskedwhen=False)].any()
-        while not isinstance(test, bool):
+        while not isinstance(test, (bool, self.numpy.bool_)):
             test = test.any()
 
         if test:
             raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
 
-        return IndexedArray(self._inverse, what)
+        return IndexedArray(self._index[:self.numpy.searchsorted(self._index, self._length, side="left")], what)
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
@@ -693,11 +739,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             defaultlen = len(self.default)
         except:
             defaultlen = -1
-        out = self.numpy.full(self.shape, defaultlen, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_todense(content, defaultlen)
 
     def flattentuple(self):
         self._valid()
@@ -705,28 +747,19 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         self._valid()
-        out = self._util_flatten(self._content, axis)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_flatten(self.dense, axis)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self._util_pad(self._content.dense, length, maskedwhen, clip, axis)
+        self._valid()
+        return self._util_pad(self.dense, length, maskedwhen, clip, axis)
 
     def regular(self):
         self._valid()
-        content = self._util_regular(self._content)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_regular(self.dense)
 
     def _reduce(self, ufunc, identity, dtype):
-        if self._util_hasjagged(self._content):
-            return self.copy(content=self._content._reduce(ufunc, identity, dtype))
+        if self._util_hasjagged(self._content) or isinstance(self._content, awkward0.array.masked.MaskedArray):
+            return self.dense._reduce(ufunc, identity, dtype)
 
         elif isinstance(self._content, awkward0.array.table.Table):
             out = self._content.empty_like()
@@ -740,6 +773,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, self.numpy.ndarray):
             return self.dense
+        elif isinstance(self._content, awkward0.array.masked.MaskedArray):
+            return self.dense._prepare(ufunc, identity, dtype)
         else:
             return self.copy(content=self._content._prepare(ufunc, identity, dtype)).dense
 
-- 
2.43.0


From 0eee7221277c3ec0fbfed14130c6a1f397c1d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 066/158] fix: IndexedArray: slices with arrays in later
 dimensions, jagged selections, index equal to the length of the content

---
 awkward0/array/indexed.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index e00c1f1..82c872a 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -126,7 +126,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._index) != 0 and self._index.reshape(-1).max() > len(self._content):
+                if self._index.size != 0 and self._index.reshape(-1).max() >= len(self._content):
                     raise ValueError("maximum index ({0}) is beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
 
                 self._isvalid = True
@@ -155,7 +155,15 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             where = (where,)
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
-        return self._content[(self._index[head],) + tail]
+        if any(isinstance(x, awkward0.array.base.AwkwardArray) and len(x.shape) == 1 and self._util_hasjagged(x) for x in head):
+            return self._content[self._index][where]
+
+        index = self._index[head]
+        if tail != () and isinstance(index, self.numpy.ndarray) and all(isinstance(x, slice) or self._util_isinteger(x) for x in head):
+            # head only has slices, so it must not be paired with any arrays in tail
+            return self._content[index][(slice(None),) * len(index.shape) + tail]
+        else:
+            return self._content[(index,) + tail]
 
     def _invert(self, what):
         if self._inverse is None:
-- 
2.43.0


From 7de40eb8cfeee7c7e49d8d413868c08c46e2b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 067/158] fix: cross of a JaggedArray with an IndexedArray or
 ChunkedArray of lists

---
 awkward0/array/jagged.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 9217ce6..5bedb06 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1395,8 +1395,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return out
 
     def argcross(self, other, nested=False):
-        if isinstance(other, self.VirtualArray):
-            other = other.array
+        other = self._util_unwrapjagged(other)
         out = self._argcross(other)
         out["0"] = out["0"] - self._starts.astype(self.INDEXTYPE)
         out["1"] = out["1"] - other._starts.astype(self.INDEXTYPE)
@@ -1407,8 +1406,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return out
 
     def cross(self, other, nested=False):
-        if isinstance(other, self.VirtualArray):
-            other = other.array
+        other = self._util_unwrapjagged(other)
         if hasattr(self, "_nestedcross"):
             thyself = self._nestedcross
         else:
-- 
2.43.0


From 3a86cfc7464e1216d489306726519865a967b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 068/158] fix: mean, var, std and moment skip NaN when the
 intermediate result is a Numpy array

---
 awkward0/array/base.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 3067e4d..1f3ca99 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -217,27 +217,27 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     def moment(self, n, weight=None):
         with self.numpy.errstate(invalid="ignore"):
             if weight is None:
-                return self.numpy.true_divide((self**n).sum(), self.count())
+                return self.numpy.true_divide(self._util_sum(self**n), self.count())
             else:
-                return self.numpy.true_divide((self**n * weight).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide(self._util_sum(self**n * weight), self._util_sum(self * 0 + weight))
 
     def mean(self, weight=None):
         with self.numpy.errstate(invalid="ignore"):
             if weight is None:
                 return self.numpy.true_divide(self.sum(), self.count())
             else:
-                return self.numpy.true_divide((self * weight).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide(self._util_sum(self * weight), self._util_sum(self * 0 + weight))
 
     def var(self, weight=None, ddof=0):
         with self.numpy.errstate(invalid="ignore"):
             if weight is None:
                 denom = self.count()
                 one = self.numpy.true_divide(self.sum(), denom)
-                two = self.numpy.true_divide((self**2).sum(), denom)
+                two = self.numpy.true_divide(self._util_sum(self**2), denom)
             else:
-                denom = (self * 0 + weight).sum()
-                one = self.numpy.true_divide((self * weight).sum(), denom)
-                two = self.numpy.true_divide((self**2 * weight).sum(), denom)
+                denom = self._util_sum(self * 0 + weight)
+                one = self.numpy.true_divide(self._util_sum(self * weight), denom)
+                two = self.numpy.true_divide(self._util_sum(self**2 * weight), denom)
             if ddof != 0:
                 return (two - one**2) * denom / (denom - ddof)
             else:
@@ -536,6 +536,11 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return array
 
+    @classmethod
+    def _util_sum(cls, array):
+        # like array.sum(), which includes NaN if the array is a Numpy array
+        return cls._util_reduce(array, cls.numpy.add, 0, None)
+
     @classmethod
     def _util_reduce(cls, array, ufunc, identity, dtype):
         if isinstance(array, AwkwardArray):
-- 
2.43.0


From df1d285c30df621b08a52e9c16f85cdd1f04237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 069/158] fix: UnionArray: multidimensional selections and
 columns of several branches, unused branches and excess index ignored

---
 awkward0/array/union.py | 71 ++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 793e761..2cd90f4 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -285,7 +285,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         i = 0
         while i < lentags:
-            yield contents[tags[i]][index[i]]
+            if len(tags.shape) > 1:
+                yield self[i]
+            else:
+                yield contents[tags[i]][index[i]]
             i += 1
 
     def __getitem__(self, where):
@@ -293,13 +296,14 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if self._util_isstringslice(where):
             contents = []
-            for tag in self.numpy.unique(self._tags):
+            used = self.numpy.unique(self._tags)
+            for tag in used:
                 contents.append(self._contents[tag][where])
             # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
                 return self.copy(contents=[self._contents[0][where]])
             else:
-                return self.copy(contents=contents)
+                return self.copy(tags=self.numpy.searchsorted(used, self._tags), contents=contents)
 
         if isinstance(where, tuple) and len(where) == 0:
             return self
@@ -312,14 +316,48 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if len(tags.shape) == len(index.shape) == 0:
             return self._contents[tags][(index,) + tail]
+        elif tail != ():
+            return self._util_tail(tags, index, tail, not all(isinstance(x, slice) or self._util_isinteger(x) for x in head))
+        elif len(tags.shape) > 1:
+            return self.copy(tags=tags, index=index)
         else:
             if len(tags) == 0:
-                return self._contents[0][(index,) + tail]
+                return self._contents[0][index]
             elif (tags == tags[0]).all():
-                return self._contents[tags[0]][(index,) + tail]
+                return self._contents[tags[0]][index]
             else:
                 return self.copy(tags=tags, index=index)
 
+    def _util_tail(self, tags, index, tail, paired):
+        # select in the dimensions below the union, one content at a time; arrays in tail are paired with the elements if those were selected by an array
+        if len(tags.shape) != 1:
+            raise NotImplementedError("multidimensional index through a multidimensional UnionArray")
+
+        if paired:
+            tail = tuple(x if isinstance(x, slice) or self._util_isinteger(x) else self._util_toarray(x, self.INDEXTYPE) for x in tail)
+            tail = tuple(self.numpy.nonzero(x)[0] if isinstance(x, self.numpy.ndarray) and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)) else x for x in tail)
+            tail = tuple(self.numpy.broadcast_to(x, tags.shape) if isinstance(x, self.numpy.ndarray) else x for x in tail)
+
+        used = self.numpy.unique(tags)
+        if len(used) == 0:
+            used = self._tags[:1] if len(self._tags) != 0 else self.numpy.zeros(1, dtype=self.TAGTYPE)
+
+        outtags = self.numpy.searchsorted(used, tags)
+        outindex = self.numpy.empty(len(tags), dtype=self.INDEXTYPE)
+        contents = []
+        for tag in used:
+            mask = (tags == tag)
+            outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
+            if paired:
+                contents.append(self._contents[tag][(index[mask],) + tuple(x[mask] if isinstance(x, self.numpy.ndarray) else x for x in tail)])
+            else:
+                contents.append(self._contents[tag][index[mask]][(slice(None),) + tail])
+
+        if len(contents) == 1:
+            return contents[0]
+        else:
+            return self.UnionArray(outtags, outindex, contents)
+
     def __setitem__(self, where, what):
         if what.shape[:len(self._tags.shape)] != self._tags.shape:
             raise ValueError("array to assign does not have the same starting shape as tags")
@@ -435,7 +473,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def boolmask(self, maskedwhen=True):
@@ -444,7 +482,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.MASKTYPE)
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def choose(self, n):
@@ -483,11 +521,16 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        arrays = [self._util_regular(x) for x in self._contents]
-        out = self.numpy.empty(len(self), self.uniondtype(arrays))
-        for tag, array in enumerate(arrays):
-            mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+        used = self.numpy.unique(self._tags)
+        if len(used) == 0:
+            return self._util_regular(self._contents[0][:0])
+        masks = [self._tags == tag for tag in used]
+        arrays = [self._util_regular(self._contents[tag][self._index[:len(self._tags)][mask]]) for tag, mask in zip(used, masks)]
+        if any(x.shape[1:] != arrays[0].shape[1:] for x in arrays[1:]):
+            raise ValueError("some UnionArray possibilities have different shapes than others")
+        out = self.numpy.empty((len(self),) + arrays[0].shape[1:], self.uniondtype(arrays))
+        for mask, array in zip(masks, arrays):
+            out[mask] = array
         return out
 
     def _hasjagged(self):
@@ -507,7 +550,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         masks, parts = [], []
         for tag, content in enumerate(self._contents):
             mask = (self._tags == tag)
-            if mask.any() or tag == 0:
+            if mask.any() or (tag == 0 and len(self._tags) == 0):
                 part = content[index[mask]]
                 if not isinstance(part, self.numpy.ndarray) and not self._util_hasjagged(part):
                     part = part._prepare(ufunc, identity, dtype)
@@ -518,8 +561,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                 masks.append(mask)
                 parts.append(part)
 
-        if len(parts) > 1 and len(parts[0]) == 0:
-            masks, parts = masks[1:], parts[1:]
         out = self.numpy.empty(self._tags.shape[:1] + parts[0].shape[1:], dtype=self.numpy.result_type(*parts))
         for mask, part in zip(masks, parts):
             out[mask] = part
-- 
2.43.0


From 7d1eb7e63f31d9a02f66c89ede5942c3caa20b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 070/158] fix: VirtualArray replays assigned and deleted
 columns in their order, also lists of columns, and with caches that forget at
 once

---
 awkward0/array/virtual.py | 50 +++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 33f23c8..6d13867 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -313,24 +313,37 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     return self.materialize()
             else:
                 # abnormal state (7)
-                self._cache[self.key] = self._array
-                return self._array
+                array, self._array = self._array, self.key
+                self._cache[self._array] = array
+                return array
 
     @property
     def ismaterialized(self):
         if self._cache is None:
             return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
+        elif isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            if callable(getattr(self._cache, "__contains__", None)):
+                return self._array in self._cache
+            try:
+                self._cache[self._array]
+            except KeyError:
+                return False
+            else:
+                return True
         else:
-            return self._array is not None and self._array in self._cache
+            return self._array is not None
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
+        # an assignment takes back an earlier deletion and a deletion takes back an earlier assignment, so deletions go first
+        if self._delitem is not None:
+            columns = self._util_columns_descend(array, set())
+            for n in self._delitem:
+                if n in columns:
+                    del array[n]
         if self._setitem is not None:
             for n, x in self._setitem.items():
                 array[n] = x
-        if self._delitem is not None:
-            for n in self._delitem:
-                del array[n]
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
@@ -370,23 +383,30 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self.array[where]
 
     def __setitem__(self, where, what):
-        self.array[where] = what
+        array = self.array
+        array[where] = what
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
+            self._type = awkward0.type.fromarray(array)
         if self._setitem is None:
             self._setitem = OrderedDict()
-        self._setitem[where] = what
+        if isinstance(where, awkward0.util.string):
+            self._setitem[where] = what
+        else:
+            for n, x in zip(where, what.unzip()):
+                self._setitem[n] = x
 
     def __delitem__(self, where):
-        del self.array[where]
+        array = self.array
+        del array[where]
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
-        if self._setitem is not None and where in self._setitem:
-            del self._setitem
+            self._type = awkward0.type.fromarray(array)
         if self._delitem is None:
             self._delitem = []
-        if where not in self._delitem:
-            self._delitem.append(where)
+        for n in [where] if isinstance(where, awkward0.util.string) else where:
+            if self._setitem is not None:
+                self._setitem.pop(n, None)
+            if n not in self._delitem:
+                self._delitem.append(n)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From 477dd9b7d49146f9218549e20843b0d67bc72283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 071/158] fix: StringArray: comparison with strings, lists and
 other encodings, fromstr, fromnumpy, pad, flatten, concatenate and functions
 on characters

---
 awkward0/array/objects.py | 166 +++++++++++++++++++++++++-------------
 1 file changed, 110 insertions(+), 56 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index af1fcce..5756818 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -192,7 +192,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(tail, tuple) and tail == ():
                 return self.generator(content, *self._args, **self._kwargs)
             else:
-                return self.generator(content, *self._args, **self._kwargs)[tail]
+                return self.generator(content, *self._args, **self._kwargs)[tail[0] if len(tail) == 1 else tail]
 
         elif isinstance(tail, tuple) and tail == ():
             return self.copy(content=content)
@@ -311,43 +311,21 @@ class StringMethods(object):
             raise NotImplementedError("in-place operations not supported")
 
         if method != "__call__":
-            raise NotImplemented
+            return NotImplemented
 
         if ufunc is self.numpy.equal or ufunc is self.numpy.not_equal:
             if len(inputs) < 2:
                 raise ValueError("invalid number of arguments")
-            left, right = inputs[0], inputs[1]
-
-            if isinstance(left, (str, bytes)):
-                left = self.StringArray.fromstr(len(right), left)
-            elif isinstance(left, self.numpy.ndarray) and (left.dtype.kind == "U" or left.dtype.kind == "S"):
-                left = self.StringArray.fromnumpy(left)
-            elif isinstance(left, self.numpy.ndarray) and left.dtype == self.numpy.dtype(object):
-                left = self.StringArray.fromiter(left)
-            elif not isinstance(left, StringMethods):
-                return self.numpy.zeros(len(right), dtype=self.BOOLTYPE)
-
-            if isinstance(right, (str, bytes)):
-                right = self.StringArray.fromstr(len(left), right)
-            elif isinstance(right, self.numpy.ndarray) and (right.dtype.kind == "U" or right.dtype.kind == "S"):
-                right = self.StringArray.fromnumpy(right)
-            elif isinstance(right, self.numpy.ndarray) and right.dtype == self.numpy.dtype(object):
-                right = self.StringArray.fromiter(right)
-            elif not isinstance(right, StringMethods):
-                return self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
-
-            left = self.JaggedArray(left.starts, left.stops, left.content)
-            right = self.JaggedArray(right.starts, right.stops, right.content)
 
-            maybeequal = (left.counts == right.counts)
+            for x in inputs:
+                if isinstance(x, awkward0.array.base.AwkwardArray) and not isinstance(x, ObjectArray):
+                    return NotImplemented
 
-            leftmask = left[maybeequal]
-            rightmask = right[maybeequal]
-
-            reallyequal = (leftmask == rightmask).count_nonzero() == leftmask.counts
-
-            out = self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
-            out[maybeequal] = reallyequal
+            left, right = inputs[0], inputs[1]
+            if isinstance(left, StringMethods):
+                out = left._equal(right)
+            else:
+                out = right._equal(left)
 
             if ufunc is self.numpy.equal:
                 return out
@@ -357,11 +335,61 @@ class StringMethods(object):
         else:
             return super(StringMethods, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
 
+    def _equal(self, other):
+        if isinstance(other, self.numpy.ndarray) and other.shape == ():
+            other = other.item()
+
+        if isinstance(other, (awkward0.util.string, bytes)):
+            if isinstance(other, bytes) != (self._encoding is None):
+                return self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+            try:
+                other = self.StringArray.fromstr(len(self), other, self._encoding)
+            except UnicodeEncodeError:
+                return self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+
+        elif isinstance(other, self.numpy.ndarray) and other.dtype.kind in ("U", "S"):
+            other = self.StringArray.fromnumpy(other)
+
+        elif isinstance(other, (list, tuple)) or (isinstance(other, self.numpy.ndarray) and other.dtype == self.numpy.dtype(object)):
+            if len(other) != len(self):
+                raise ValueError("cannot compare string arrays of different lengths: {0} and {1}".format(len(self), len(other)))
+            comparable = self.numpy.array([isinstance(x, (awkward0.util.string, bytes)) and isinstance(x, bytes) == (self._encoding is None) for x in other], dtype=self.BOOLTYPE)
+            out = self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+            out[comparable] = self[comparable]._equal(self.StringArray.fromiter([x for x, c in zip(other, comparable) if c], None if self._encoding is None else "utf-8"))
+            return out
+
+        elif not isinstance(other, StringMethods):
+            return self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+
+        if len(other) != len(self):
+            raise ValueError("cannot compare string arrays of different lengths: {0} and {1}".format(len(self), len(other)))
+
+        if (self._encoding is None) != (other._encoding is None):
+            return self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+
+        left, right = self, other
+        if left._encoding != right._encoding:
+            left, right = [x if x._encoding == "utf-8" else self.StringArray.fromiter(list(x), "utf-8") for x in (left, right)]
+
+        left = self.JaggedArray(left.starts, left.stops, left.content)
+        right = self.JaggedArray(right.starts, right.stops, right.content)
+
+        maybeequal = (left.counts == right.counts)
+
+        leftmask = left[maybeequal]
+        rightmask = right[maybeequal]
+
+        reallyequal = (leftmask == rightmask).count_nonzero() == leftmask.counts
+
+        out = self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+        out[maybeequal] = reallyequal
+        return out
+
 def tostring(x, decoder):
     if decoder is None:
-        return x.tostring()
+        return x.tobytes()
     else:
-        return decoder(x, "replace")[0]
+        return decoder(x if x.flags.c_contiguous else x.tobytes(), "replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
@@ -375,15 +403,14 @@ class StringArray(StringMethods, ObjectArray):
         self.encoding = encoding
 
     @classmethod
-    def fromstr(cls, length, string, encoding="utf-8"):   # FIXME: infer encoding from string
+    def fromstr(cls, length, string, encoding="utf-8"):
+        if isinstance(string, bytes):
+            encoding = None
         if encoding is not None:
             encoder = codecs.getencoder(encoding)
             string = encoder(string)[0]
-        content = cls.numpy.empty(length * len(string), dtype=cls.CHARTYPE)
-        for i, x in string:
-            content[0::length] = ord(x)                   # FIXME: use numpy.tile!
-        counts = cls.numpy.empty(length, dtype=cls.INDEXTYPE)
-        counts[:] = length
+        content = cls.numpy.tile(cls.numpy.frombuffer(string, dtype=cls.CHARTYPE), length)
+        counts = cls.numpy.full(length, len(string), dtype=cls.INDEXTYPE)
         return cls.fromcounts(counts, content, encoding)
 
     @classmethod
@@ -395,6 +422,14 @@ class StringArray(StringMethods, ObjectArray):
         else:
             raise TypeError("not a string array")
 
+        if len(array.shape) != 1:
+            raise ValueError("string array must be one-dimensional")
+
+        if array.dtype.itemsize == 0:
+            return cls.fromcounts(cls.numpy.zeros(len(array), dtype=cls.INDEXTYPE), cls.numpy.empty(0, dtype=cls.CHARTYPE), encoding)
+
+        array = cls.numpy.ascontiguousarray(array, dtype=array.dtype.newbyteorder("<"))
+
         starts = cls.numpy.arange(                   0,  len(array)      * array.dtype.itemsize, array.dtype.itemsize)
         stops  = cls.numpy.arange(array.dtype.itemsize, (len(array) + 1) * array.dtype.itemsize, array.dtype.itemsize)
         content = array.view(cls.CHARTYPE)
@@ -426,7 +461,7 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromiter(cls, iterable, encoding="utf-8"):
         if encoding is None:
-            encoded = iterable
+            encoded = list(iterable)
         else:
             encoder = codecs.getencoder(encoding)
             encoded = [encoder(x)[0] for x in iterable]
@@ -612,6 +647,22 @@ class StringArray(StringMethods, ObjectArray):
         else:
             return str
 
+    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        if "out" in kwargs or method != "__call__" or ufunc is self.numpy.equal or ufunc is self.numpy.not_equal:
+            return super(StringArray, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
+
+        def rewrap(result):
+            if isinstance(result, self.JaggedArray) and getattr(result.content, "dtype", None) == self.CHARTYPE:
+                return self.fromjagged(result, self._encoding)
+            else:
+                return result
+
+        result = getattr(ufunc, method)(*[x._content if isinstance(x, ObjectArray) else x for x in inputs], **kwargs)
+        if isinstance(result, tuple):
+            return tuple(rewrap(x) for x in result)
+        else:
+            return rewrap(result)
+
     def __getitem__(self, where):
         if self._util_isstringslice(where):
             raise IndexError("cannot index StringArray with string or sequence of strings")
@@ -650,7 +701,7 @@ class StringArray(StringMethods, ObjectArray):
         if isinstance(content, awkward0.array.jagged.JaggedArray):
             return self.fromjagged(content, self._encoding)
         else:
-            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content))
+            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content), self._encoding)
 
     def pad(self, length, maskedwhen=None, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
@@ -665,18 +716,12 @@ class StringArray(StringMethods, ObjectArray):
             raise TypeError("to pad a StringArray, set maskedwhen to a one-character bytestring, such as b' '")
         else:
             maskedwhen = ord(maskedwhen)
-        import awkward0.array.jagged
-        import awkward0.array.masked
-        padded = self._util_pad(self._content, length, True, clip)
-        assert isinstance(padded, awkward0.array.jagged.JaggedArray)
-        assert isinstance(padded.content, awkward0.array.masked.MaskedArray)
-        if padded.content.content is self._content.content:
-            chars = padded.content.content.copy()
-        else:
-            chars = padded.content.content
-        chars[padded.content.mask] = maskedwhen
-        padded.content = chars
-        return self.fromjagged(padded, self._encoding)
+        padded = self._content.pad(length, clip=clip)
+        filled = padded.content.boolmask(maskedwhen=True)
+        chars = self.numpy.full(len(filled), maskedwhen, dtype=self.CHARTYPE)
+        if not filled.all():
+            chars[~filled] = padded.content.content[~filled]
+        return self.fromjagged(padded.copy(content=chars), self._encoding)
 
     # @awkward0.util.bothmethod
     # def concatenate(isclassmethod, cls_or_self, arrays, axis=0):
@@ -695,13 +740,22 @@ class StringArray(StringMethods, ObjectArray):
     #     return self.fromjagged(jagged, self.encoding)
 
     @classmethod
-    def _concatenate_axis0(cls, arrays):
+    def _sameencoding(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
+        if len(set(x._encoding for x in arrays)) == 1:
+            return arrays
+        if any(x._encoding is None for x in arrays):
+            raise TypeError("cannot concatenate arrays of bytes with arrays of strings")
+        return [x if x._encoding == "utf-8" else cls.fromiter(list(x), "utf-8") for x in arrays]
+
+    @classmethod
+    def _concatenate_axis0(cls, arrays):
+        arrays = cls._sameencoding(arrays)
         return cls.fromjagged(cls.JaggedArray.fget(None)._concatenate_axis0([x._content for x in arrays]), encoding=arrays[0]._encoding)
 
     @classmethod
     def _concatenate_axis1(cls, arrays):
-        assert all(isinstance(x, StringArray) for x in arrays)
+        arrays = cls._sameencoding(arrays)
         tmp = cls.JaggedArray.fget(None)._concatenate_axis1([x._content for x in arrays])
         tmp._content = tmp._content.astype(cls.CHARTYPE)
         return cls.fromjagged(tmp, encoding=arrays[0]._encoding)
-- 
2.43.0


From a587cf14ec63f16754a0e5df38c33c9dcd3c960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 072/158] fix: MaskedArray of strings compared with a string

---
 awkward0/array/masked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f4a6914..6af489e 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -227,7 +227,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
                 inputs[i] = inputs[i]._content[:len(inputs[i])][tokeep]
-            elif isinstance(inputs[i], self.numpy.ndarray) and inputs[i].shape == ():
+            elif isinstance(inputs[i], (awkward0.util.string, bytes)) or (isinstance(inputs[i], self.numpy.ndarray) and inputs[i].shape == ()):
                 pass
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 inputs[i] = inputs[i][tokeep]
-- 
2.43.0


From 9520f85fdff51a93999c8a5857faa4dcdafe16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 073/158] fix: JaggedArray of strings compared with a string

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 5bedb06..160b61c 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1024,7 +1024,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], JaggedArray):
                 inputs[i] = inputs[i]._tojagged(starts, stops, copy=False)
 
-            elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray, awkward0.util.string, bytes)):
                 pass
 
             else:
-- 
2.43.0


From 10678d9d25d470707a0de6d355c1e4b8af614c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 074/158] fix: JaggedArray of strings compared with one string
 per list

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 160b61c..7da9537 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1064,7 +1064,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         good = (parents >= 0)
 
                 def recurse(x):
-                    if isinstance(x, awkward0.array.objects.ObjectArray):
+                    if isinstance(x, awkward0.array.objects.ObjectArray) and not isinstance(x, awkward0.array.objects.StringArray):
                         return x.copy(content=recurse(x.content))
 
                     elif isinstance(x, awkward0.array.table.Table):
-- 
2.43.0


From c95e9b0899f8321bd4052bbc08ba311ae2dabfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 075/158] fix: ObjectArray.concatenate applied the first
 array's generator to all

---
 awkward0/array/objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 5756818..bb70017 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -282,7 +282,13 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-        out = arrays[0].copy(content=[])
+        first = arrays[0]
+        if not all(a._generator == first._generator and a._args == first._args and a._kwargs == first._kwargs for a in arrays[1:]):
+            # the elements are not made in the same way, so they can't share a generator
+            tags = cls.numpy.concatenate([cls.numpy.full(len(a), i, dtype=cls.TAGTYPE) for i, a in enumerate(arrays)])
+            return awkward0.array.objects.Methods.maybemixin(cls, first.UnionArray).fromtags(tags, arrays)
+
+        out = first.copy(content=[])
         out._content = cls._util_concatenate([a._content for a in arrays])
         return out
 
-- 
2.43.0


From 899c00e54b4d33b113e8457c3b12c08c5eba5e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 076/158] fix: ufuncs with more than one output on ObjectArray

---
 awkward0/array/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index bb70017..c69bbe4 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -219,6 +219,8 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._util_iscomparison(ufunc):
             return result
+        elif isinstance(result, tuple):
+            return tuple(self.copy(content=x) for x in result)
         else:
             return self.copy(content=result)
 
-- 
2.43.0


From 50fe3f4f671283141c621a4322ba3f971ee61381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 077/158] fix: multidimensional index of ObjectArray selected
 from the content, not the objects

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index c69bbe4..ea69f45 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -198,7 +198,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=content)
 
         else:
-            return [x[tail] for x in content]   # FIXME: in self.copy(content=content), right?
+            return [x[tail[0] if len(tail) == 1 else tail] for x in self.copy(content=content)]
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From d4dc656aa25e4b4034bc591b6463d3a2de603b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 078/158] fix: column of a UnionArray had the methods of its
 records

---
 awkward0/array/union.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 2cd90f4..e9ecc42 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -299,11 +299,17 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             used = self.numpy.unique(self._tags)
             for tag in used:
                 contents.append(self._contents[tag][where])
-            # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
-                return self.copy(contents=[self._contents[0][where]])
+                out = self.copy(contents=[self._contents[0][where]])
             else:
-                return self.copy(tags=self.numpy.searchsorted(used, self._tags), contents=contents)
+                out = self.copy(tags=self.numpy.searchsorted(used, self._tags), contents=contents)
+            # the column has the methods of its own contents, if they all have the same
+            sample = type(out._contents[0])
+            for x in out._contents[1:]:
+                if self._util_methods(type(x)) != self._util_methods(sample):
+                    sample = self.UnionArray
+            out.__class__ = awkward0.array.objects.Methods.maybemixin(sample, self.UnionArray)
+            return out
 
         if isinstance(where, tuple) and len(where) == 0:
             return self
@@ -328,6 +334,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             else:
                 return self.copy(tags=tags, index=index)
 
+    @classmethod
+    def _util_methods(cls, sample):
+        return tuple(x for x in sample.__bases__ if not issubclass(x, awkward0.array.base.AwkwardArray)) if issubclass(sample, awkward0.array.objects.Methods) else ()
+
     def _util_tail(self, tags, index, tail, paired):
         # select in the dimensions below the union, one content at a time; arrays in tail are paired with the elements if those were selected by an array
         if len(tags.shape) != 1:
-- 
2.43.0


From 91ee8bd22d6a3f1109c723bf2436bbd12c28bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 079/158] fix: unsorted selection from a ChunkedArray lost its
 methods

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 6744248..96c5f58 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -492,7 +492,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if all(isinstance(x, self.numpy.ndarray) for x in chunks):
                     return self.numpy.concatenate(chunks)[inverse]
                 else:
-                    return self.IndexedArray(inverse, self._withchunks(chunks=chunks))
+                    return awkward0.array.objects.Methods.maybemixin(type(self), self.IndexedArray)(inverse, self._withchunks(chunks=chunks))
 
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
-- 
2.43.0


From 1281d3c8193952529b32983c0d97fde1ff0afb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 080/158] fix: Table.Row index below the row raised NameError

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 52f0369..20642fb 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -97,7 +97,7 @@ class Table(awkward0.array.base.AwkwardArray):
                     index = (index,)
                 if not isinstance(where, tuple):
                     where = (where,)
-                return self._table.Row(table, index + where)
+                return self._table.Row(self._table, index + where)
 
         def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
             if "out" in kwargs:
-- 
2.43.0


From e21429f84abdde20dfb5382471bba42b64915507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 081/158] fix: unsorted selection from a ChunkedArray recursed
 infinitely in operations

---
 awkward0/array/chunked.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 96c5f58..3d176c7 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -491,8 +491,18 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 inverse[order] = self.numpy.arange(len(order), dtype=self.INDEXTYPE)
                 if all(isinstance(x, self.numpy.ndarray) for x in chunks):
                     return self.numpy.concatenate(chunks)[inverse]
-                else:
-                    return awkward0.array.objects.Methods.maybemixin(type(self), self.IndexedArray)(inverse, self._withchunks(chunks=chunks))
+                elif all(type(x) is type(chunks[0]) for x in chunks[1:]):
+                    try:
+                        return self._withchunks(chunks=[self._util_concatenate(chunks)[inverse]])
+                    except NotImplementedError:
+                        pass
+
+                # these can't be concatenated, so make a chunk of every contiguous run
+                chunkid = chunkid[inverse]
+                local = (self.numpy.arange(len(order), dtype=self.INDEXTYPE) - self.numpy.repeat(offsets[:-1], self.numpy.diff(offsets)))[inverse]
+                position = dict((cid, i) for i, cid in enumerate(chunkid[order][starts]))
+                bounds = [0] + list(self.numpy.nonzero(chunkid[1:] != chunkid[:-1])[0] + 1) + [len(chunkid)]
+                return self._withchunks(chunks=[chunks[position[chunkid[start]]][local[start:stop]] for start, stop in zip(bounds[:-1], bounds[1:])])
 
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
-- 
2.43.0


From 20e0273377bda2e9f6695e1985dcd010205d3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 082/158] fix: selection from a SparseArray lost its methods

---
 awkward0/array/indexed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 82c872a..d5cf2e0 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -637,12 +637,15 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 explicit = (match < len(self._index))
                 explicit[explicit] = (self._index[match[explicit]] == head[explicit])
 
+                if explicit.all() and isinstance(self._content, awkward0.array.base.AwkwardArray):
+                    return self._content[match]
+
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
                 tags[explicit] = 1
                 index[explicit] = self.numpy.arange(self.numpy.count_nonzero(explicit))
 
-                return self.UnionArray(tags, index, [self._util_defaultarray(), self._content[match[explicit]]])
+                return awkward0.array.objects.Methods.maybemixin(type(self), self.UnionArray)(tags, index, [self._util_defaultarray(), self._content[match[explicit]]])
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
-- 
2.43.0


From 473fc94b9e5a2022474d1014735b59f05274e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 083/158] fix: JaggedArray combined with a SparseArray of lists

---
 awkward0/array/jagged.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 7da9537..bebb9b3 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -975,9 +975,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _util_unwrapjagged(cls, array):
         # a JaggedArray may be wrapped in classes that do not change its high-level type
-        while cls._util_hasjagged(array) and isinstance(array, (cls.ChunkedArray.fget(None), cls.IndexedArray.fget(None), cls.VirtualArray.fget(None))):
+        while cls._util_hasjagged(array) and isinstance(array, (cls.ChunkedArray.fget(None), cls.IndexedArray.fget(None), cls.SparseArray.fget(None), cls.VirtualArray.fget(None))):
             if isinstance(array, cls.VirtualArray.fget(None)):
                 array = array.array
+            elif isinstance(array, cls.SparseArray.fget(None)):
+                array = array.dense
             elif isinstance(array, cls.IndexedArray.fget(None)):
                 array._valid()
                 array = array._content[array._index]
-- 
2.43.0


From 837540f5743be22c2692db3611cf24b0ec15aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 084/158] fix: fromiter with dictencoding lost trailing null
 characters

---
 awkward0/generate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 890e979..327361d 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -146,11 +146,17 @@ class NumberFillable(SimpleFillable):
     def finalize(self, **options):
         return self.awkwardlib.numpy.array(self.data)
 
+def _unique(data, awkwardlib):
+    # like numpy.unique(data, return_inverse=True), but Numpy's fixed-width strings would lose trailing null characters
+    dictionary = sorted(set(data))
+    lookup = dict((x, i) for i, x in enumerate(dictionary))
+    return dictionary, awkwardlib.numpy.array([lookup[x] for x in data], dtype=awkwardlib.IndexedArray.INDEXTYPE)
+
 class BytesFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = _unique(self.data, self.awkwardlib)
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding=None))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding=None)
@@ -159,7 +165,7 @@ class StringFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = _unique(self.data, self.awkwardlib)
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding="utf-8"))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding="utf-8")
-- 
2.43.0


From 0ff43e6c0118a03885009a5c6562ef9e776fc2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 085/158] fix: fromiter lost an object without attributes after
 others of its class

---
 awkward0/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 327361d..1f19def 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -254,7 +254,7 @@ class ObjectFillable(Fillable):
         self.content.clear()
 
     def matches(self, tpe):
-        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and (len(tpe[0]) == 0 or self.content.matches(tpe[0]))
+        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and self.content.matches(JaggedFillable if len(tpe[0]) == 0 else tpe[0])
 
     def append(self, obj, tpe):
         if tpe is None:
-- 
2.43.0


From 22fdf944e687f80d896894bdc920aafc16a5e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 086/158] fix: concatenating more than 256 arrays of different
 types

---
 awkward0/array/base.py    | 7 ++++++-
 awkward0/array/objects.py | 2 +-
 awkward0/array/union.py   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 1f3ca99..610f559 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -600,6 +600,11 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return AwkwardArray.concatenate(arrays)
 
+    @classmethod
+    def _util_tags(cls, arrays):
+        tagtype = cls.TAGTYPE if len(arrays) <= cls.numpy.iinfo(cls.TAGTYPE.type).max + 1 else cls.INDEXTYPE
+        return cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=tagtype) for i, x in enumerate(arrays)])
+
     @bothmethod
     def concatenate(isclassmethod, cls_or_self, arrays, axis=0):
         if len(arrays) < 1:
@@ -624,7 +629,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
         if not all(resolve(type(x)) == resolve(type(arrays[0])) for x in arrays):
             if axis == 0:
-                tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
+                tags = cls._util_tags(arrays)
                 return cls.UnionArray.fget(None).fromtags(tags, arrays)
             else:
                 raise NotImplementedError("axis > 0 for different types")
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index ea69f45..8d379ba 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -287,7 +287,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
         first = arrays[0]
         if not all(a._generator == first._generator and a._args == first._args and a._kwargs == first._kwargs for a in arrays[1:]):
             # the elements are not made in the same way, so they can't share a generator
-            tags = cls.numpy.concatenate([cls.numpy.full(len(a), i, dtype=cls.TAGTYPE) for i, a in enumerate(arrays)])
+            tags = cls._util_tags(arrays)
             return awkward0.array.objects.Methods.maybemixin(cls, first.UnionArray).fromtags(tags, arrays)
 
         out = first.copy(content=[])
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index e9ecc42..ccf9e70 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -623,7 +623,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, UnionArray) for x in arrays)
-        tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
+        tags = cls._util_tags(arrays)
         return cls.UnionArray.fget(None).fromtags(tags, arrays)
 
     _topandas_name = "UnionSeries"
-- 
2.43.0


From 573591c60c5239346887a354fada93022fd48c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 087/158] fix: unpickling an array with functions outside the
 whitelist

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 610f559..e537cb2 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -85,7 +85,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     def __reduce__(self):
         state = {}
         awkward0.persist.serialize(self, state)
-        return (awkward0.persist.deserialize, (state,))
+        return (awkward0.persist.deserialize, (state, "", [["*"]]))    # a pickle can call any function anyway
 
     def _checkiter(self):
         if not self.allow_iter:
-- 
2.43.0


From 02d2cf14f2ae459365a0221732778406b2e1980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 088/158] fix: serialization of byte-swapped, padded, empty and
 object dtypes

---
 awkward0/persist.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index e96ccca..cc10095 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -90,11 +90,15 @@ def spec2function(obj, whitelist=whitelist):
 def dtype2json(obj):
     if obj.subdtype is not None:
         dt, sh = obj.subdtype
-        return (dtype2json(dt), sh)
+        return [dtype2json(dt), [int(x) for x in sh]]
     elif obj.names is not None:
-        return [(n, dtype2json(obj[n])) for n in obj.names]
+        packed = numpy.dtype([(n, obj[n]) for n in obj.names])
+        if packed.itemsize == obj.itemsize and all(packed.fields[n][1] == obj.fields[n][1] for n in obj.names):
+            return [[n, dtype2json(obj[n])] for n in obj.names]
+        else:
+            return {"names": list(obj.names), "formats": [dtype2json(obj[n]) for n in obj.names], "offsets": [int(obj.fields[n][1]) for n in obj.names], "itemsize": int(obj.itemsize), "aligned": bool(obj.isalignedstruct)}
     else:
-        return str(obj)
+        return obj.str
 
 def json2dtype(obj):
     def recurse(obj):
@@ -102,6 +106,10 @@ def json2dtype(obj):
             return tuple(recurse(x) for x in obj)
         elif isinstance(obj, (list, tuple)):
             return [recurse(x) for x in obj]
+        elif isinstance(obj, dict) and "formats" in obj:
+            out = dict(obj)
+            out["formats"] = [numpy.dtype(recurse(x)) for x in obj["formats"]]
+            return numpy.dtype(out, align=out.pop("aligned", False))
         else:
             return obj
     return numpy.dtype(recurse(obj))
@@ -479,6 +487,9 @@ class BlobSerializer(Serializer):
         return dict(read=key)
 
     def _encode_numpy(self, obj, context):
+        if obj.ndim == 0 or obj.dtype.hasobject or obj.dtype.itemsize == 0 or 0 in obj.shape[1:]:
+            return self.encode_python(obj)      # such an array is not an array of fixed-width items in a buffer
+
         if obj.ndim > 1:
             dtype = numpy.dtype((obj.dtype, obj.shape[1:]))
         else:
@@ -492,7 +503,7 @@ class BlobSerializer(Serializer):
         else:
             buf = self._put_raw(obj.ravel(), ref=obj)
 
-        return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self(obj.shape[0]))
+        return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self.encode_json(obj.shape[0]))
 
 def serialize(obj, storage, name="", delimiter="-", **kwargs):
     if delimiter is None:
-- 
2.43.0


From 4bbf74a7d2bca16573b5030a732925c5a875d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 089/158] fix: equality and hash of union, recursive and nested
 types

---
 awkward0/type.py | 265 ++++++++++++++++++++++-------------------------
 1 file changed, 125 insertions(+), 140 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 7f29984..0460da1 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -104,101 +104,114 @@ class Type(object):
             return out + self._substr(labeled, seen, indent + (" " * len(out)))
 
     @staticmethod
-    def _copy(x, seen):
-        if id(x) in seen:
-            return seen[id(x)]
+    def _commute(x):
+        # apply string-integer commutation so that TableTypes are nested as deeply as possible
+        if isinstance(x, TableType) and len(x._fields) > 0:
+            fields = OrderedDict((n, _value(y)) for n, y in x._fields.items())
+            takes = [y._takes if isinstance(y, ArrayType) else None for y in fields.values()]
+            if takes[0] is not None and not math.isinf(takes[0]) and all(y == takes[0] for y in takes):
+                table = TableType.__new__(TableType)
+                table._fields = OrderedDict((n, y._to) for n, y in fields.items())
+                out = ArrayType.__new__(ArrayType)
+                out._takes = takes[0]
+                out._to = Type._commute(table)
+                return out
+        return x
+
+    @staticmethod
+    def _canonical(x, seen):
+        if isinstance(x, numpy.dtype):
+            if x.subdtype is not None:
+                return Type._canonical(fromnumpy((), x), seen)
+            elif x.names is not None:
+                table = TableType.__new__(TableType)
+                table._fields = OrderedDict((n, Type._canonical(x[n], seen)) for n in x.names)
+                return Type._commute(table)
+            else:
+                return x
+
+        elif isinstance(x, Placeholder):
+            return Type._canonical(_value(x), seen)
+
+        elif not isinstance(x, Type):
+            return x
+
+        elif id(x) in seen:
+            return seen[id(x)][1]
 
-        elif isinstance(x, ArrayType):
-            seen[id(x)] = ArrayType.__new__(ArrayType)
-            seen[id(x)]._takes = x.takes
-            seen[id(x)]._to = Type._copy(x.to, seen)
-            return seen[id(x)]
+        placeholder = Placeholder()
+        seen[id(x)] = x, placeholder        # also keeps x alive, so that its id is not reused
+
+        if isinstance(x, ArrayType):
+            out = ArrayType.__new__(ArrayType)
+            out._takes = x._takes
+            out._to = Type._canonical(x._to, seen)
 
         elif isinstance(x, TableType):
-            seen[id(x)] = TableType.__new__(TableType)
-            seen[id(x)]._fields = OrderedDict()
-            for n, y in x._fields.items():
-                seen[id(x)]._fields[n] = Type._copy(y, seen)
-            return seen[id(x)]
+            out = TableType.__new__(TableType)
+            out._fields = OrderedDict((n, Type._canonical(y, seen)) for n, y in x._fields.items())
+            out = Type._commute(out)
 
         elif isinstance(x, UnionType):
-            seen[id(x)] = UnionType.__new__(UnionType)
-            seen[id(x)]._possibilities = []
+            out = UnionType.__new__(UnionType)
+            out._possibilities = []
             for y in x._possibilities:
-                seen[id(x)]._possibilities.append(Type._copy(y, seen))
-            return seen[id(x)]
+                y = _value(Type._canonical(y, seen))
+                if isinstance(y, UnionType):
+                    out._possibilities.extend(y._possibilities)      # apply union(X, union(Y)) == union(X, Y)
+                else:
+                    out._possibilities.append(y)
 
         elif isinstance(x, OptionType):
-            seen[id(x)] = OptionType.__new__(OptionType)
-            seen[id(x)]._type = Type._copy(x._type, seen)
-            return seen[id(x)]
+            out = _value(Type._canonical(x._type, seen))
+            if not isinstance(out, OptionType):                      # apply optional(optional(X)) == optional(X)
+                inner, out = out, OptionType.__new__(OptionType)
+                out._type = inner
 
         else:
-            return x
+            out = x
 
-    @staticmethod
-    def _canonical(x, seen):
-        if id(x) not in seen:
-            # apply string-integer commutation so that TableTypes are nested as deeply as possible
-            if isinstance(x, TableType) and len(x._fields) > 0 and all(isinstance(y, ArrayType) for y in x._fields.values()):
-                newtable = TableType.__new__(TableType)
-                newtable._fields = OrderedDict()
-                first = None
-                for n, y in x._fields.items():
-                    if first is None:
-                        first = y._takes
-                    elif first != y._takes or math.isinf(y._takes):
-                        break
-                    newtable._fields[n] = y._to
-                else:
-                    x = ArrayType.__new__(ArrayType)
-                    x._takes = first
-                    x._to = newtable
-
-            # apply union(X, union(Y)) == union(X, Y)
-            if isinstance(x, UnionType) and any(isinstance(y, UnionType) for y in x._possibilities):
-                possibilities = []
-                for y in x._possibilities:
-                    if isinstance(y, UnionType):
-                        possibilities.extend(y._possibilities)
-                    else:
-                        possibilities.append(y)
-                x = UnionType.__new__(UnionType)
-                x._possibilities = possibilities
-
-            # apply optional(optional(X)) == optional(X)
-            if isinstance(x, OptionType) and isinstance(x._type, OptionType):
-                x = x._type
-
-            seen.add(id(x))
-            if isinstance(x, ArrayType):
-                x._to = Type._canonical(x._to, seen)
-            elif isinstance(x, TableType):
-                for n in x._fields:
-                    x._fields[n] = Type._canonical(x._fields[n], seen)
-            elif isinstance(x, UnionType):
-                for i in range(len(x._possibilities)):
-                    x._possibilities[i] = Type._canonical(x._possibilities[i], seen)
-            elif isinstance(x, OptionType):
-                x._type = Type._canonical(x._type, seen)
-
-        return x
+        placeholder.value = out
+        return placeholder
 
     def __eq__(self, other):
         if not isinstance(other, Type):
             return False
         else:
-            one = Type._canonical(Type._copy(self, {}), set())
-            two = Type._canonical(Type._copy(other, {}), set())
+            one = _resolve(Type._canonical(self, {}), {})
+            two = _resolve(Type._canonical(other, {}), {})
             return one._eq(two, set(), ignoremask=False)
 
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        return Type._hash2(_resolve(Type._canonical(self, {}), {}), 5)
+
+    @staticmethod
+    def _hash2(x, depth):
+        if isinstance(x, Type):
+            return 0 if depth == 0 else x._hash(depth - 1)           # a recursive type has no end
+        elif isinstance(x, numpy.dtype):
+            return hash(x)
+        else:
+            return hash(Type)                                        # all callables are equal (see _eq2)
+
+    def _eq(self, other, seen, ignoremask=False):
+        if not self.check or self is other or (id(self), id(other)) in seen:
+            return True    # a pair that is being compared is equal if nothing else differs
+        else:
+            seen.add((id(self), id(other)))
+            return self._subeq(other, seen, ignoremask)
+
     @staticmethod
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
             return one._eq(two, seen, ignoremask=ignoremask)
+        elif isinstance(two, Type):
+            return False
+        elif isinstance(one, numpy.dtype) or isinstance(two, numpy.dtype):
+            return isinstance(one, numpy.dtype) and isinstance(two, numpy.dtype) and one == two
         elif one == two:
             return True
         elif callable(one) and callable(two):
@@ -326,28 +339,17 @@ class ArrayType(Type):
             to = str(self._to)
         return takes + to
 
-    def _eq(self, other, seen, ignoremask=False):
-        if not self.check:
-            return True
-        if self is other:
-            return True
-        elif id(self) in seen:
-            return False
-        else:
-            seen.add(id(self))
-            if isinstance(other, ArrayType) and self._takes == other._takes:
-                return self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
-            else:
-                return False
+    def _subeq(self, other, seen, ignoremask):
+        return isinstance(other, ArrayType) and self._takes == other._takes and self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
 
-    def __hash__(self):
-        return hash((ArrayType, self._takes, self._to))
+    def _hash(self, depth):
+        return hash((ArrayType, self._takes, self._hash2(self._to, depth)))
 
 class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
         for n, x in fields.items():
-            self._fields[n] = x
+            self[n] = x
 
     @property
     def shape(self):
@@ -419,26 +421,11 @@ class TableType(Type):
             out.append(("{0}{1:%ds} -> {2}" % width).format(indent, repr(n), to))
         return "\n".join(out).lstrip(" ")
 
-    def _eq(self, other, seen, ignoremask=False):
-        if not self.check:
-            return True
-        if self is other:
-            return True
-        elif id(self) in seen:
-            return False
-        else:
-            seen.add(id(self))
-            if isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields):
-                for n in self._fields:
-                    if not self._eq2(self._fields[n], other._fields[n], seen, ignoremask=ignoremask):
-                        return False
-                else:
-                    return True    # nothing failed in the loop over fields
-            else:
-                return False
+    def _subeq(self, other, seen, ignoremask):
+        return isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields) and all(self._eq2(x, other._fields[n], seen, ignoremask=ignoremask) for n, x in self._fields.items())
 
-    def __hash__(self):
-        return hash((TableType, tuple((n, self._fields[n]) for n in sorted(self._fields))))
+    def _hash(self, depth):
+        return hash((TableType, tuple((n, self._hash2(self._fields[n], depth)) for n in sorted(self._fields))))
 
 class UnionType(Type):
     def __init__(self, *possibilities):
@@ -504,26 +491,21 @@ class UnionType(Type):
         out = [x + " " * (width - len(lstrip(x.split("\n")[-1]))) for x in subs]
         return "(" + (" |\n" + indent + " ").join(out) + " )"
 
-    def _eq(self, other, seen, ignoremask=False):
-        if not self.check:
-            return True
-        if self is other:
-            return True
-        elif id(self) in seen:
+    def _subeq(self, other, seen, ignoremask):
+        def match(xs, ys, seen):
+            # find a different y for each x
+            if len(xs) == 0:
+                return True
+            for i, y in enumerate(ys):
+                trial = set(seen)
+                if self._eq2(xs[0], y, trial, ignoremask=ignoremask) and match(xs[1:], ys[:i] + ys[i + 1:], trial):
+                    return True
             return False
-        else:
-            seen.add(id(self))
-            if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
-                for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
-                    if not self._eq2(x, y, seen, ignoremask=ignoremask):
-                        return False
-                else:
-                    return True    # nothing failed in the loop over possibilities
-            else:
-                return False
 
-    def __hash__(self):
-        return hash((UnionType, tuple(self._possibilities)))
+        return isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities) and match(self._possibilities, other._possibilities, seen)
+
+    def _hash(self, depth):
+        return hash((UnionType, tuple(sorted(self._hash2(x, depth) for x in self._possibilities))))
 
 class OptionType(Type):
     def __init__(self, type):
@@ -586,25 +568,17 @@ class OptionType(Type):
             type = str(self._type)
         return "?({0})".format(type)
 
-    def _eq(self, other, seen, ignoremask=False):
-        if not self.check:
-            return True
-        if self is other:
-            return True
-        elif id(self) in seen:
-            return False
+    def _subeq(self, other, seen, ignoremask):
+        if isinstance(other, OptionType):
+            if self._eq2(self._type, other._type, set(seen), ignoremask=ignoremask):
+                return True
+        if ignoremask:    # applied asymmetrically; only the left can ignore mask
+            return self._eq2(self._type, other, seen, ignoremask=ignoremask)
         else:
-            seen.add(id(self))
-            if isinstance(other, OptionType):
-                if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
-                    return True
-            if ignoremask:    # applied asymmetrically; only the left can ignore mask
-                return self._eq2(self._type, other, seen, ignoremask=ignoremask)
-            else:
-                return False
+            return False
 
-    def __hash__(self):
-        return hash((OptionType, self._type))
+    def _hash(self, depth):
+        return hash((OptionType, self._hash2(self._type, depth)))
 
 ###############################################################################
 
@@ -655,9 +629,20 @@ class Placeholder(Type):
     def __init__(self, value=None):
         self.value = value
 
+    def _subeq(self, other, seen, ignoremask):
+        return self._eq2(_value(self), other, seen, ignoremask=ignoremask)
+
+    def _hash(self, depth):
+        return hash(Placeholder)
+
     def _subrepr(self, labeled, seen):
         return "Placeholder({0})".format(self.value._repr(labeled, seen) if isinstance(self.value, Type) else repr(self.value))
 
+def _value(tpe):
+    while isinstance(tpe, Placeholder) and tpe.value is not None:
+        tpe = tpe.value
+    return tpe
+
 def _resolve(tpe, seen):
     while isinstance(tpe, Placeholder):
         tpe = tpe.value
-- 
2.43.0


From 4b4d46670cbdc9ef1ea6d9182c7ba53931a62fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 090/158] fix: serialization of shared and cyclic jagged arrays

---
 awkward0/array/jagged.py | 16 ++++++++++------
 awkward0/persist.py      |  1 +
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index bebb9b3..2efdb76 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -313,12 +313,16 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content.ones_like(**overrides))
 
     def __awkward_serialize__(self, serializer):
-        if self._canuseoffset() and len(self) > 0:
-            return serializer.encode_call(
-                ["awkward0", "JaggedArray", "fromcounts"],
-                serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
-            )
+        whole = self._content in serializer.seen or id(self._content) in serializer.slicing      # shared or cyclic
+        if self._canuseoffset() and len(self) > 0 and not (whole and (self._starts[0] != 0 or self.stops[-1] != len(self._content))):
+            counts = serializer(self.counts, "JaggedArray.counts")
+            if self._starts[0] == 0 and self.stops[-1] == len(self._content):
+                content = serializer(self._content, "JaggedArray.content")
+            else:
+                serializer.slicing.add(id(self._content))
+                content = serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content")
+                serializer.slicing.discard(id(self._content))
+            return serializer.encode_call(["awkward0", "JaggedArray", "fromcounts"], counts, content)
         else:
             return serializer.encode_call(
                 ["awkward0", "JaggedArray"],
diff --git a/awkward0/persist.py b/awkward0/persist.py
index cc10095..759995f 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -294,6 +294,7 @@ class Serializer(object):
         self.prefix = prefix
         self.schemasuffix = schemasuffix
         self.seen = ObjRef(idgen=count())
+        self.slicing = set()
 
     def store(self, name, obj):
         schema = {"awkward0": awkward0.version.__version__, "schema": self(obj)}
-- 
2.43.0


From 39538e826de3c8f09df9c2a58282c0fc7eb70892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 091/158] fix: serialization lost the row name of a table

---
 awkward0/array/table.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 20642fb..771ac97 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -292,8 +292,10 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     @classmethod
-    def frompairs(cls, pairs, rowstart=0):
+    def frompairs(cls, pairs, rowstart=0, rowname=None):
         out = cls()
+        if rowname is not None:
+            out._rowname = rowname
         for n, x in pairs:
             out[n] = x
         out._rowstart = rowstart
@@ -382,16 +384,17 @@ class Table(awkward0.array.base.AwkwardArray):
                 [n, serializer(x, "Table.contents")]
                 for n, x in self._contents.items()
             ]},
-            {"json": self.rowstart}
+            {"json": int(self.rowstart)},
+            **({} if self._rowname == "Row" else {"rowname": {"json": self._rowname}})
         )
         if isinstance(self._view, tuple):
             start, step, length = self._view
             out = serializer.encode_call(
                 ["awkward0", "Table", "fromview"],
                 {"tuple": [
-                    {"json": start},
-                    {"json": step},
-                    {"json": length},
+                    {"json": int(start)},
+                    {"json": int(step)},
+                    {"json": int(length)},
                 ]},
                 out,
             )
-- 
2.43.0


From 3438de27824b72018a5bec97f7ee24b87e92aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 092/158] fix: serialization lost the type of an empty
 ChunkedArray

---
 awkward0/array/chunked.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3d176c7..281f7c9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -59,14 +59,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
         self._valid()
+        chunks = [(c, x) for c, x in zip(self._chunksizes, self._chunks) if c > 0]
+        if len(chunks) == 0:
+            chunks = [(c, x) for c, x in zip(self._chunksizes, self._chunks)][:1]    # an empty array still has a type
         return serializer.encode_call(
             ["awkward0", "ChunkedArray"],
-            dict(list=[
-                serializer(x, "ChunkedArray.chunk")
-                for c, x in zip(self._chunksizes, self._chunks)
-                if c > 0
-            ]),
-            serializer.encode_json([int(c) for c in self._chunksizes if c > 0]),
+            dict(list=[serializer(x, "ChunkedArray.chunk") for c, x in chunks]),
+            serializer.encode_json([int(c) for c, x in chunks]),
         )
 
     @property
-- 
2.43.0


From 27708b0bca65f0ec27611240638b109cc1d48770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 093/158] fix: serialization of virtual arrays with changed
 columns and of materialized ones

---
 awkward0/array/virtual.py | 20 +++++++++++++++++---
 awkward0/persist.py       | 12 ++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 6d13867..69f3509 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -138,11 +138,25 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 others["type"]["whitelistable"] = True
             if others:
                 out["kwargs"] = others
+            if self._setitem or self._delitem:
+                out = serializer.encode_call(
+                    ["awkward0", "VirtualArray", "_withcolumns"],
+                    out,
+                    {"pairs": [
+                        [n, serializer(x, "VirtualArray.setitem")]
+                        for n, x in (self._setitem or {}).items()
+                    ]},
+                    {"json": list(self._delitem or [])},
+                )
+            return out
         else:
-            out = serializer(self.array, "VirtualArray.array")
-            out.pop("id")
+            return serializer.substitute(self, self.array, "VirtualArray.array")
 
-        return out
+    @staticmethod
+    def _withcolumns(array, setitem, delitem):
+        array._setitem = OrderedDict(setitem)
+        array._delitem = list(delitem)
+        return array
 
     @property
     def generator(self):
diff --git a/awkward0/persist.py b/awkward0/persist.py
index 759995f..6559979 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -257,6 +257,7 @@ class ObjRef(object):
             self.idgen = iter(idgen)
         self._i2r = {}
         self._r2o = {}
+        self._aliases = []
 
     def nextid(self):
         return next(self.idgen)
@@ -273,6 +274,10 @@ class ObjRef(object):
             self[obj] = self.nextid()
         return self._i2r[id(obj)]
 
+    def alias(self, obj, other):
+        self._i2r[id(obj)] = self[other]
+        self._aliases.append(obj)    # keeps obj alive, so that its id is not reused
+
     def __delitem__(self, obj):
         assert obj in self
         del self._r2o[self._i2r[id(obj)]]
@@ -487,6 +492,13 @@ class BlobSerializer(Serializer):
         self.storage[self.prefix + key] = data
         return dict(read=key)
 
+    def substitute(self, obj, replacement, context=""):
+        # encode obj as though it were the replacement, so that references to either one are references to the same thing
+        if replacement in self.seen:
+            return {"ref": self.seen[replacement]}
+        self.seen.alias(replacement, obj)
+        return self._encode_complex(replacement, context)
+
     def _encode_numpy(self, obj, context):
         if obj.ndim == 0 or obj.dtype.hasobject or obj.dtype.itemsize == 0 or 0 in obj.shape[1:]:
             return self.encode_python(obj)      # such an array is not an array of fixed-width items in a buffer
-- 
2.43.0


From 42cc3c920ea331f2fc948af4c8c6daac37d41cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 094/158] fix: JaggedArray of starts and stops in a buffer that
 is not a Numpy array

---
 awkward0/array/jagged.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 2efdb76..07846e7 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -24,16 +24,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def offsetsaliased(cls, starts, stops):
-        if not hasattr(starts, "base") or starts.base is None:
-            starts_base = None
-        else:
-            starts_base = cls._util_toarray(starts.base, cls.INDEXTYPE)
-        if not hasattr(stops, "base") or stops.base is None:
-            stops_base = None
-        else:
-            stops_base = cls._util_toarray(stops.base, cls.INDEXTYPE)
+        starts_base = getattr(starts, "base", None)
+        stops_base = getattr(stops, "base", None)
         return (isinstance(starts, cls.numpy.ndarray) and isinstance(stops, cls.numpy.ndarray) and
-                starts_base is not None and stops_base is not None and starts_base is stops_base and
+                isinstance(starts_base, cls.numpy.ndarray) and starts_base is stops_base and
                 starts.strides == stops.strides == starts_base.strides and
                 starts.ctypes.data == starts_base.ctypes.data and
                 stops.ctypes.data == stops_base.ctypes.data + stops.dtype.itemsize and
-- 
2.43.0


From fe185c115830e8d541047d8a723cd4130cea3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 095/158] fix: pickling arrays that are not in the native byte
 order

---
 awkward0/persist.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 6559979..8390672 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -54,8 +54,8 @@ whitelist = [
         ["uproot.tree", "_LazyBranch"],
     ]
 
-def frompython(obj):
-    return base64.b64encode(pickle.dumps(obj)).decode("ascii")
+def frompython(obj, protocol=None):
+    return base64.b64encode(pickle.dumps(obj, protocol)).decode("ascii")
 
 def topython(string):
     return pickle.loads(base64.b64decode(string.encode("ascii")))
@@ -501,20 +501,25 @@ class BlobSerializer(Serializer):
 
     def _encode_numpy(self, obj, context):
         if obj.ndim == 0 or obj.dtype.hasobject or obj.dtype.itemsize == 0 or 0 in obj.shape[1:]:
-            return self.encode_python(obj)      # such an array is not an array of fixed-width items in a buffer
+            # such an array is not an array of fixed-width items in a buffer; Numpy forgets the byte order with older protocols
+            return {"python": frompython(obj, pickle.HIGHEST_PROTOCOL)}
 
         if obj.ndim > 1:
             dtype = numpy.dtype((obj.dtype, obj.shape[1:]))
         else:
             dtype = obj.dtype
 
+        raw = obj.ravel()
+        if not obj.dtype.isnative:
+            raw = raw.view(numpy.uint8)         # Numpy changes the byte order of an array when it is pickled
+
         buf = None
         for policy in self._parse_compression(self.compression):
             if policy.test(obj, context):
-                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(obj.ravel()), ref=obj))
+                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(raw), ref=obj))
                 break
         else:
-            buf = self._put_raw(obj.ravel(), ref=obj)
+            buf = self._put_raw(raw, ref=obj)
 
         return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self.encode_json(obj.shape[0]))
 
-- 
2.43.0


From 185e4015ff81675db593318fd1583f8777cba005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 096/158] fix: default value of a SparseArray of chunks

---
 awkward0/array/indexed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index d5cf2e0..990dea8 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -450,6 +450,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 return None
             elif isinstance(self._content, awkward0.array.table.Table):
                 return self._util_defaultarray()[0]
+            elif isinstance(self._content, awkward0.array.chunked.ChunkedArray) and len(self._content.chunks) > 0:
+                return self.copy(length=0, index=self._index[:0], content=self._content.chunks[0]).default
             elif self._content.shape[1:] == ():
                 return self._content.dtype.type(0)
             else:
-- 
2.43.0


From 414d4154e16e6e10eb60349a060bded2b867cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 097/158] fix: OptionType.hascolumn of primitive types

---
 awkward0/type.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 0460da1..c0ab0f8 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -556,7 +556,12 @@ class OptionType(Type):
         if id(self) in seen:
             return False
         seen.add(id(self))
-        return self._type._hascolumn(name, seen)
+        if isinstance(self._type, numpy.dtype):
+            return self._type.names is not None and name in self._type.names
+        elif isinstance(self._type, Type):
+            return self._type._hascolumn(name, seen)
+        else:
+            return False
 
     def _subrepr(self, labeled, seen):
         return "OptionType({0})".format(self._type._repr(labeled, seen) if isinstance(self._type, Type) else repr(self._type))
-- 
2.43.0


From 4d596f6cd9b0f351e8688a7b042fa385cf5bf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 098/158] fix: text of a table without columns and of a union
 without members

---
 awkward0/type.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/type.py b/awkward0/type.py
index c0ab0f8..60a46b0 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -410,6 +410,8 @@ class TableType(Type):
         return "TableType({0})".format(", ".join("{0}={1}".format(n, x._repr(labeled, seen) if isinstance(x, Type) else repr(x)) for n, x in self._fields.items()))
 
     def _substr(self, labeled, seen, indent):
+        if len(self._fields) == 0:
+            return "TableType()"
         width = max(len(repr(n)) for n in self._fields.keys())
         subindent = indent + (" " * width) + "    "
         out = []
@@ -481,6 +483,8 @@ class UnionType(Type):
         return "UnionType({0})".format(", ".join(x._repr(labeled, seen) if isinstance(x, Type) else repr(x) for x in self._possibilities))
 
     def _substr(self, labeled, seen, indent):
+        if len(self._possibilities) == 0:
+            return "UnionType()"
         subs = [x._str(labeled, seen, indent + " ") if isinstance(x, Type) else str(x) for x in self._possibilities]
         def lstrip(x):
             if x.startswith(indent + " "):
-- 
2.43.0


From b6b81079525eec7327fd41c72cf7101fdda21c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 099/158] fix: types of strings, bytes and objects were equal

---
 awkward0/type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 60a46b0..c778f83 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -192,7 +192,7 @@ class Type(object):
     def _hash2(x, depth):
         if isinstance(x, Type):
             return 0 if depth == 0 else x._hash(depth - 1)           # a recursive type has no end
-        elif isinstance(x, numpy.dtype):
+        elif isinstance(x, numpy.dtype) or x is str or x is bytes:
             return hash(x)
         else:
             return hash(Type)                                        # all callables are equal (see _eq2)
@@ -214,6 +214,8 @@ class Type(object):
             return isinstance(one, numpy.dtype) and isinstance(two, numpy.dtype) and one == two
         elif one == two:
             return True
+        elif one is str or one is bytes or two is str or two is bytes:
+            return False
         elif callable(one) and callable(two):
             return True
         else:
-- 
2.43.0


From c856de07052e8b9223d4e24eed74f726ea472c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 100/158] fix: selecting from a ChunkedArray of UnionArrays
 gave chunks of different types

---
 awkward0/array/chunked.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 281f7c9..5d50f00 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -271,6 +271,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def _withchunks(self, chunks, chunksizes=None):
         # the same kind of array with other chunks
+        import awkward0.array.union
+        if len(chunks) > 1 and any(isinstance(x, awkward0.array.union.UnionArray) for x in self._chunks):
+            # a selection from a union might not be a union, but all chunks must have the same type
+            types = [awkward0.type.fromarray(x).to for x in chunks]
+            if any(tpe != types[0] for tpe in types[1:]):
+                return self.copy(chunks=[self._util_concatenate(chunks)], chunksizes=None)
         return self.copy(chunks=chunks, chunksizes=chunksizes)
 
     def _valid(self):
-- 
2.43.0


From 448d2bce2b261350cbbb4888f43278937eac25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 101/158] fix: save left half of an array in the file if it
 can't be serialized

---
 awkward0/persist.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 8390672..4a41bc5 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -12,6 +12,7 @@ import pickle
 import types
 import zipfile
 import zlib
+from collections import OrderedDict
 from itertools import count
 try:
     from collections.abc import Mapping, MutableMapping
@@ -718,13 +719,10 @@ def save(file, array, name=None, mode="a", **options):
     alloptions.update(options)
     options = alloptions
 
-    class Wrap(object):
-        def __init__(self, f):
-            self.f = f
-        def __setitem__(self, where, what):
-            if isinstance(what, numpy.ndarray):
-                what = what.tostring()
-            self.f.writestr(where, what, compress_type=zipfile.ZIP_STORED)
+    # serialize everything before opening the file, so that a failure doesn't leave half of an array in it
+    pending = OrderedDict()
+    for name, array in arrays.items():
+        serialize(array, pending, name=name, **options)
 
     with zipfile.ZipFile(file, mode=mode, compression=zipfile.ZIP_STORED) as f:
         namelist = f.namelist()
@@ -732,9 +730,10 @@ def save(file, array, name=None, mode="a", **options):
             if any(n.startswith(name) for n in namelist):
                 raise KeyError("cannot add {0} to zipfile because the following already exist: {1}".format(repr(name), ", ".join(repr(n) for n in namelist if n.startswith(name))))
 
-        wrapped = Wrap(f)
-        for name, array in arrays.items():
-            serialize(array, wrapped, name=name, **options)
+        for where, what in pending.items():
+            if isinstance(what, numpy.ndarray):
+                what = what.tostring()
+            f.writestr(where, what, compress_type=zipfile.ZIP_STORED)
 
 def load(file, **options):
     f = Load(file, **options)
-- 
2.43.0


From 94525b9b710ccd4742fb86c6dcd8c44c8866b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 102/158] fix: hdf5 names with slashes, failing writes and
 objects that aren't arrays

---
 awkward0/persist.py | 49 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 4a41bc5..9312803 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -818,27 +818,48 @@ class hdf5(MutableMapping):
             del options["whitelist"]
         if "cache" in options:
             del options["cache"]
-        self._group.g.create_group(where)
-        serialize(what, self._group, name=where, **options)
+
+        # serialize everything before writing, so that a failure doesn't leave half of an array in the file
+        pending = OrderedDict()
+        serialize(what, pending, name=where, **options)
+
+        group = self._group.g.require_group(where)
+        for subname in [where + self.options["schemasuffix"]] + list(pending):
+            if subname in self._group.g and (self._hasschema(group) or self._isgroup(self._group.g[subname])):
+                raise ValueError("cannot write {0} because {1} already exists".format(repr(where), repr(subname)))
+        for subname, data in pending.items():       # the schema is last
+            if subname in self._group.g:
+                del self._group.g[subname]          # left over from an array that was only partly written or deleted
+            self._group[subname] = data
 
     def __delitem__(self, where):
-        for subname in keys(self._group, name=where + self.options["schemasuffix"]):
+        for subname in list(keys(self._group, name=where + self.options["schemasuffix"])):      # the schema is first
             del self._group.g[subname]
-        del self._group.g[where]
+        if len(self._group.g[where]) == 0:          # it might contain other arrays
+            del self._group.g[where]
 
-    def __iter__(self):
+    @staticmethod
+    def _isgroup(obj):
+        return callable(getattr(obj, "keys", None))
+
+    def _hasschema(self, group):
         schemaname = self.options["schemasuffix"].split("/")[-1]
-        for subname in self._group.g:
-            if schemaname in self._group.g[subname]:
-                yield subname
+        return schemaname in group and not self._isgroup(group[schemaname])
+
+    def __iter__(self):
+        def recurse(group, prefix):
+            for subname in group:
+                subgroup = group[subname]
+                if self._isgroup(subgroup):
+                    if self._hasschema(subgroup):
+                        yield prefix + subname
+                    for x in recurse(subgroup, prefix + subname + "/"):
+                        yield x
+
+        return recurse(self._group.g, "")
 
     def __len__(self):
-        schemaname = self.options["schemasuffix"].split("/")[-1]
-        count = 0
-        for subname in self._group.g:
-            if schemaname in self._group.g[subname]:
-                count += 1
-        return count
+        return sum(1 for x in self)
 
     def __repr__(self):
         return "<awkward0.hdf5 {0} ({1} members)>".format(repr(self._group.g.name), len(self))
-- 
2.43.0


From ad6112484c3a62b5d61590d02d4552c3d9b3758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 103/158] fix: reading hdf5 arrays through another group than
 they were written

---
 awkward0/persist.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 9312803..b2afcad 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -807,8 +807,21 @@ class hdf5(MutableMapping):
 
         self._group = Wrap()
 
+    def _located(self, where):
+        # the data are where the schema is, even if it was written through another group or was moved since then
+        name, group = where + self.options["schemasuffix"], self._group
+        schema = json.loads(group[name].tobytes().decode("ascii"))
+        if "prefix" in schema:
+            schema["prefix"] = where + self.options["delimiter"]
+
+        class Located(object):
+            def __getitem__(self, where):
+                return json.dumps(schema).encode("ascii") if where == name else group[where]
+
+        return Located()
+
     def __getitem__(self, where):
-        return deserialize(self._group, name=where + self.options["schemasuffix"], whitelist=self.options["whitelist"], cache=self.options["cache"])
+        return deserialize(self._located(where), name=where + self.options["schemasuffix"], whitelist=self.options["whitelist"], cache=self.options["cache"])
 
     def __setitem__(self, where, what):
         options = dict(self.options)
@@ -833,7 +846,7 @@ class hdf5(MutableMapping):
             self._group[subname] = data
 
     def __delitem__(self, where):
-        for subname in list(keys(self._group, name=where + self.options["schemasuffix"])):      # the schema is first
+        for subname in list(keys(self._located(where), name=where + self.options["schemasuffix"])):      # the schema is first
             del self._group.g[subname]
         if len(self._group.g[where]) == 0:          # it might contain other arrays
             del self._group.g[where]
-- 
2.43.0


From d4512305fe0066bd1066daa8e35e6fdc8c4eded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 104/158] fix: load with another schemasuffix didn't list any
 arrays

---
 awkward0/persist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index b2afcad..51911b4 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -764,13 +764,13 @@ class Load(Mapping):
 
     def __iter__(self):
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
-                yield n[:-5]
+            if n.endswith(self.schemasuffix):
+                yield n[:len(n) - len(self.schemasuffix)]
 
     def __len__(self):
         count = 0
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
+            if n.endswith(self.schemasuffix):
                 count += 1
         return count
 
-- 
2.43.0


From 9e5137cf12cceb633cc435e2d399f9ccd7d91cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 105/158] fix: whitelist patterns matched objects that contain
 what they allow, and strings weren't patterns

---
 awkward0/persist.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 51911b4..6431e9f 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -61,9 +61,19 @@ def frompython(obj, protocol=None):
 def topython(string):
     return pickle.loads(base64.b64decode(string.encode("ascii")))
 
+def _promote(whitelist):
+    # a single string is a specifier and a single specifier is a list of specifiers
+    if isinstance(whitelist, str):
+        whitelist = [whitelist]
+    if len(whitelist) > 0 and isinstance(whitelist[0], str):
+        whitelist = [whitelist]
+    return whitelist
+
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
-    for white in whitelist:
+    for white in _promote(whitelist):
+        if len(white) > len(obj):
+            continue      # the pattern is about something inside of this object
         for n, p in zip(obj, white):
             if not fnmatch.fnmatchcase(n, p):
                 break
@@ -548,10 +558,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
     if seen is None:
         seen = ObjRef()
 
-    if isinstance(whitelist, str):
-        whitelist = [whitelist]
-    elif len(whitelist) > 0 and isinstance(whitelist[0], str):
-        whitelist = [whitelist]
+    whitelist = _promote(whitelist)
 
     def unfill(schema):
         if isinstance(schema, dict):
-- 
2.43.0


From 381fda2af5ab226b83f223a1456697df3485da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 106/158] fix: a whitelisted class allowed everything that can
 be reached from it

---
 awkward0/persist.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 6431e9f..2a92a9b 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -5,6 +5,7 @@
 import base64
 import fnmatch
 import importlib
+import inspect
 import json
 import numbers
 import os
@@ -78,6 +79,8 @@ def spec2function(obj, whitelist=whitelist):
             if not fnmatch.fnmatchcase(n, p):
                 break
         else:
+            if list(white) != ["*"] and any(n.startswith("__") for n in obj[len(white):]):
+                continue      # a pattern allows what is inside of an object, but not to get out of it again
             if obj[0] == "awkward0":
                 obj = [awkwardlib] + obj[1:]
             elif obj[0] == "awkward":
@@ -90,9 +93,13 @@ def spec2function(obj, whitelist=whitelist):
             if genname[:1] == ["numpy"]:
                 gen, genname = getattr(gen, genname[0]), genname[1:]
             while len(genname) > 0:
+                if not isinstance(gen, types.ModuleType) and not inspect.isclass(gen):
+                    raise TypeError("all but the last item of a function description must be a module or classes")
                 gen, genname = getattr(gen, genname[0]), genname[1:]
                 if isinstance(gen, types.ModuleType):
                     raise TypeError("non-first items of a function description must not be a module")
+            if not callable(gen):
+                raise TypeError("a function description must be of something that can be called")
             break
     else:
         raise RuntimeError("callable not in whitelist; add it by passing a whitelist argument:\n\n    whitelist = awkward0.persist.whitelist + [{0}]".format(repr(obj)))
-- 
2.43.0


From 4ce418db2a16c276b6f68edb7b1f5627334f83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 107/158] fix: pickled objects in a schema could call functions
 that aren't in the whitelist

---
 awkward0/persist.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 2a92a9b..29a0e9b 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -6,6 +6,7 @@ import base64
 import fnmatch
 import importlib
 import inspect
+import io
 import json
 import numbers
 import os
@@ -70,6 +71,40 @@ def _promote(whitelist):
         whitelist = [whitelist]
     return whitelist
 
+# needed by values that are not arrays; they don't do anything but make an object of their arguments
+_picklable = {}
+for _module, _names in [
+        (("builtins", "__builtin__"), ["bytearray", "complex", "frozenset", "object", "range", "xrange", "set", "slice"]),
+        (("copyreg", "copy_reg"), ["_reconstructor", "__newobj__"]),
+        (("_codecs",), ["encode"]),
+        (("collections",), ["OrderedDict"]),
+        (("datetime",), ["date", "datetime", "time", "timedelta"]),
+        (("decimal",), ["Decimal"]),
+        (("fractions",), ["Fraction"]),
+        (("numpy",), ["dtype", "ndarray"]),
+        (("numpy.core.multiarray", "numpy._core.multiarray"), ["_reconstruct", "scalar"]),
+        (("numpy.core.numeric", "numpy._core.numeric"), ["_frombuffer"]),
+        ]:
+    for _x in _module:
+        _picklable[_x] = _names
+
+class _Unpickler(pickle.Unpickler):
+    whitelist = whitelist
+
+    def find_class(self, module, name):
+        if name in _picklable.get(module, ()):
+            return pickle.Unpickler.find_class(self, module, name)
+        elif module == "awkward0.persist" and name == "deserialize":
+            return lambda storage, name="", whitelist=None: deserialize(storage, name=name, whitelist=self.whitelist)
+        else:
+            return spec2function([module] + name.split("."), whitelist=self.whitelist)
+
+def _topython(string, whitelist):
+    # like topython, but it can't be made to call functions that are not in the whitelist
+    unpickler = _Unpickler(io.BytesIO(base64.b64decode(string.encode("ascii"))))
+    unpickler.whitelist = whitelist
+    return unpickler.load()
+
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in _promote(whitelist):
@@ -611,7 +646,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = schema["json"]
 
             elif "python" in schema:
-                out = topython(schema["python"])
+                out = _topython(schema["python"], whitelist)
 
             elif "ref" in schema:
                 out = seen.obj(schema["ref"])
-- 
2.43.0


From 4e8d888c404ad5c999eb5139bd00cb9363e04f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 108/158] fix: the default whitelist allowed to unpickle, to
 write files and to choose another whitelist

---
 README.rst          |  2 +-
 awkward0/persist.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/README.rst b/README.rst
index e077a06..891af8a 100644
--- a/README.rst
+++ b/README.rst
@@ -3193,7 +3193,7 @@ Using a mini-language as metadata gives us great capacity for backward and forwa
     #  ['awkward0', 'Table'],
     #  ['awkward0', 'numpy', 'frombuffer'],
     #  ['awkward0.util', 'frombuffer'],
-    #  ['awkward0.persist'],
+    #  ['awkward0.persist', 'json2type'],
     #  ['awkward0.arrow', '_ParquetFile', 'fromjson'],
     #  ['uproot_methods.classes.*'],
     #  ['uproot_methods.profiles.*'],
diff --git a/awkward0/persist.py b/awkward0/persist.py
index 29a0e9b..6deb842 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -40,13 +40,13 @@ whitelist = [
         ["awkward0", "Table"],
         ["awkward0", "numpy", "frombuffer"],
         ["awkward0.util", "frombuffer"],
-        ["awkward0.persist"],
+        ["awkward0.persist", "json2type"],
         ["awkward0.arrow", "_ParquetFile", "fromjson"],
         ["awkward", "*Array"],
         ["awkward", "Table"],
         ["awkward", "numpy", "frombuffer"],
         ["awkward.util", "frombuffer"],
-        ["awkward.persist"],
+        ["awkward.persist", "json2type"],
         ["awkward.arrow", "_ParquetFile", "fromjson"],
         ["uproot3_methods.classes.*"],
         ["uproot3_methods.profiles.*"],
@@ -74,7 +74,7 @@ def _promote(whitelist):
 # needed by values that are not arrays; they don't do anything but make an object of their arguments
 _picklable = {}
 for _module, _names in [
-        (("builtins", "__builtin__"), ["bytearray", "complex", "frozenset", "object", "range", "xrange", "set", "slice"]),
+        (("builtins", "__builtin__"), ["bool", "bytearray", "bytes", "complex", "dict", "float", "frozenset", "int", "list", "long", "object", "range", "set", "slice", "str", "tuple", "unicode", "xrange"]),
         (("copyreg", "copy_reg"), ["_reconstructor", "__newobj__"]),
         (("_codecs",), ["encode"]),
         (("collections",), ["OrderedDict"]),
@@ -615,6 +615,10 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                     kwargs["whitelist"] = whitelist
                 if "kwargs" in schema:
                     kwargs.update({n: unfill(x) for n, x in schema["kwargs"].items()})
+                if gen is json2type:
+                    # data may not choose their own whitelist
+                    args, kwargs = args[:1], {n: x for n, x in kwargs.items() if n == "obj"}
+                    kwargs["whitelist"] = whitelist
 
                 out = gen(*args, **kwargs)
 
-- 
2.43.0


From 96a0bc7eee1259e44a84edca3d034956100a1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 109/158] fix: a missing dtype in a schema was taken for
 float64

---
 awkward0/persist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 6deb842..6fd867f 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -155,7 +155,9 @@ def dtype2json(obj):
 
 def json2dtype(obj):
     def recurse(obj):
-        if isinstance(obj, (list, tuple)) and len(obj) > 0 and (isinstance(obj[-1], numbers.Integral) or isinstance(obj[0], str) or (isinstance(obj[-1], (list, tuple)) and all(isinstance(x, numbers.Integral) for x in obj[-1]))):
+        if obj is None:
+            raise TypeError("None is not a dtype")      # Numpy's default
+        elif isinstance(obj, (list, tuple)) and len(obj) > 0 and (isinstance(obj[-1], numbers.Integral) or isinstance(obj[0], str) or (isinstance(obj[-1], (list, tuple)) and all(isinstance(x, numbers.Integral) for x in obj[-1]))):
             return tuple(recurse(x) for x in obj)
         elif isinstance(obj, (list, tuple)):
             return [recurse(x) for x in obj]
-- 
2.43.0


From fe271a52b6e55eee20ffab9e663417684e2fa2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 110/158] fix: the addresses of objects were read as the
 characters of a string

---
 awkward0/array/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 8d379ba..42293b1 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -394,6 +394,8 @@ class StringMethods(object):
         return out
 
 def tostring(x, decoder):
+    if x.dtype.hasobject:
+        raise TypeError("characters of a string can't be Python objects")
     if decoder is None:
         return x.tobytes()
     else:
-- 
2.43.0


From 9771a126830ff310150d3e73283ddd2333ab6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 111/158] fix: garbage collection of an incomplete VirtualArray
 looked for columns

---
 awkward0/array/virtual.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 69f3509..9bcb590 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -378,9 +378,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __del__(self):
         # TransientKeys are based on runtime ids, which Python may reuse after an object is garbage collected
         # they *MUST* be removed from the cache to avoid confusion; persistentkeys can (and should) stay in
-        if getattr(self, "_cache", None) is not None and isinstance(self._array, VirtualArray.TransientKey):
+        # (not through attributes, because __getattr__ might materialize an array that was never used)
+        cache, key = self.__dict__.get("_cache", None), self.__dict__.get("_array", None)
+        if cache is not None and isinstance(key, VirtualArray.TransientKey):
             try:
-                del self._cache[self._array]
+                del cache[key]
             except:
                 pass
 
-- 
2.43.0


From a97817ec43ff7b83bb545f3882dc7961dac76bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 112/158] fix: arrow structs, unions and dictionaries couldn't
 be read with any recent pyarrow

---
 awkward0/arrow.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3a7d08b..1ec1a94 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -20,12 +20,15 @@ import awkward0.util
 
 ################################################################################ type conversions
 
+def num_fields(tpe):
+    return tpe.num_fields if hasattr(tpe, "num_fields") else tpe.num_children      # before pyarrow 0.17
+
 def schema2type(schema):
     import pyarrow
 
     def recurse(tpe, nullable):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
-            out = recurse(tpe.dictionary.type, nullable)
+            out = recurse(tpe.value_type if hasattr(tpe, "value_type") else tpe.dictionary.type, nullable)
             if nullable:
                 return awkward0.type.OptionType(out)
             else:
@@ -33,7 +36,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.StructType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(num_fields(tpe)):
                 x = awkward0.type.ArrayType(tpe[i].name, recurse(tpe[i].type, tpe[i].nullable))
                 if out is None:
                     out = x
@@ -53,7 +56,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.UnionType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(num_fields(tpe)):
                 x = recurse(tpe[i].type, nullable)
                 if out is None:
                     out = x
@@ -256,7 +259,7 @@ def fromarrow(obj):
             assert getattr(tpe, "num_buffers", 1) == 1
             mask = buffers.pop(0)
             pairs = []
-            for i in range(tpe.num_children):
+            for i in range(num_fields(tpe)):
                 pairs.append((tpe[i].name, popbuffers(None if array is None else array.field(tpe[i].name), tpe[i].type, buffers, length)))
             out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
             if mask is not None:
@@ -296,7 +299,7 @@ def fromarrow(obj):
             assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(num_fields(tpe)):
                 try:
                     sublength = index[tags == i][-1] + 1
                 except IndexError:
@@ -321,7 +324,7 @@ def fromarrow(obj):
             tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
             index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(num_fields(tpe)):
                 try:
                     sublength = index[tags == i].max() + 1
                 except ValueError:
-- 
2.43.0


From 9e0607733661908aed8f6a3665ea2d022ff12e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 113/158] fix: fromarrow read sliced arrays from the beginning
 of their buffers

---
 awkward0/arrow.py | 217 ++++++++++++++--------------------------------
 1 file changed, 65 insertions(+), 152 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 1ec1a94..7dcf338 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -238,188 +238,101 @@ def fromarrow(obj):
     ARROW_BITMASKTYPE = awkwardlib.numpy.uint8
     ARROW_INDEXTYPE = awkwardlib.numpy.int32
     ARROW_LARGEINDEXTYPE = awkwardlib.numpy.int64
-    ARROW_TAGTYPE = awkwardlib.numpy.uint8
+    ARROW_TAGTYPE = awkwardlib.numpy.int8
     ARROW_CHARTYPE = awkwardlib.numpy.uint8
 
-    def popbuffers(array, tpe, buffers, length):
-        if isinstance(tpe, pyarrow.lib.DictionaryType):
-            index = popbuffers(None if array is None else array.indices, tpe.index_type, buffers, length)
-            if hasattr(tpe, "dictionary"):
-                content = fromarrow(tpe.dictionary)
-            elif array is not None:
-                content = fromarrow(array.dictionary)
+    def recurse(array):
+        # buffers of a slice are the whole array's; only length and offset tell them apart
+        tpe, length, offset = array.type, len(array), array.offset
+        buffers = array.buffers()
+
+        def data(i, dtype, length, offset=offset):
+            dtype = awkwardlib.numpy.dtype(dtype)
+            if length == 0 or buffers[i] is None:
+                return awkwardlib.numpy.zeros(length, dtype=dtype)
             else:
-                raise NotImplementedError("no way to access Arrow dictionary inside of UnionArray")
+                return awkwardlib.numpy.frombuffer(buffers[i], dtype=dtype, count=length, offset=offset*dtype.itemsize)[:]      # fromoffsets doesn't copy a view of an Arrow buffer
+
+        def bits(i):
+            bytes = awkwardlib.numpy.frombuffer(buffers[i], dtype=ARROW_BITMASKTYPE)[offset // 8 : (offset + length + 7) // 8]
+            return awkwardlib.BitMaskedArray.bit2bool(bytes, lsborder=True)[offset % 8 : offset % 8 + length]
+
+        def masked(out):
+            if buffers[0] is None or length == 0:
+                return out
+            elif offset % 8 == 0:
+                mask = awkwardlib.numpy.frombuffer(buffers[0], dtype=ARROW_BITMASKTYPE)[offset // 8 :]
+            else:
+                mask = awkwardlib.BitMaskedArray.bool2bit(bits(0), lsborder=True)
+            return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
+
+        def strings(indextype, encoding):
+            offsets = data(1, indextype, length + 1 if length > 0 else 0)
+            if length == 0:
+                return awkwardlib.StringArray.fromcounts(offsets, data(2, ARROW_CHARTYPE, 0), encoding=encoding)
+            return masked(awkwardlib.StringArray.fromoffsets(offsets, data(2, ARROW_CHARTYPE, int(offsets[-1]), 0), encoding=encoding))
+
+        def lists(indextype):
+            offsets = data(1, indextype, length + 1 if length > 0 else 0)
+            if length == 0:
+                return awkwardlib.JaggedArray.fromcounts(offsets, recurse(array.values[0:0]))
+            return masked(awkwardlib.JaggedArray.fromoffsets(offsets, recurse(array.values[:int(offsets[-1])])))
+
+        def union(tags, index):
+            if tpe.type_codes != list(range(num_fields(tpe))):
+                tags = awkwardlib.numpy.array([tpe.type_codes.index(x) for x in tags], dtype=ARROW_TAGTYPE)
+            return awkwardlib.UnionArray(tags, index, [recurse(array.field(i)) for i in range(num_fields(tpe))])
+
+        if isinstance(tpe, pyarrow.lib.DictionaryType):
+            index = recurse(array.indices)
+            content = fromarrow(array.dictionary)
             if isinstance(index, awkwardlib.BitMaskedArray):
-                return awkwardlib.BitMaskedArray(index.mask, awkwardlib.IndexedArray(index.content, content), maskedwhen=index.maskedwhen, lsborder=index.lsborder)
+                # masked positions have undefined indexes
+                return awkwardlib.IndexedMaskedArray(awkwardlib.numpy.where(index.boolmask(maskedwhen=True), -1, index.content.astype(ARROW_LARGEINDEXTYPE)), content, maskedwhen=-1)
             else:
                 return awkwardlib.IndexedArray(index, content)
 
         elif isinstance(tpe, pyarrow.lib.StructType):
-            assert getattr(tpe, "num_buffers", 1) == 1
-            mask = buffers.pop(0)
-            pairs = []
-            for i in range(num_fields(tpe)):
-                pairs.append((tpe[i].name, popbuffers(None if array is None else array.field(tpe[i].name), tpe[i].type, buffers, length)))
-            out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            return masked(awkwardlib.Table.frompairs([(tpe[i].name, recurse(array.field(i))) for i in range(num_fields(tpe))], 0))   # FIXME: better rowstart
 
         elif isinstance(tpe, pyarrow.lib.ListType):
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = popbuffers(None if array is None else array.flatten(), tpe.value_type, buffers, offsets[-1])
-            out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            return lists(ARROW_INDEXTYPE)
 
-        elif hasattr(pyarrow.lib, 'LargeListType') and isinstance(tpe, pyarrow.lib.LargeListType):
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = popbuffers(None if array is None else array.flatten(), tpe.value_type, buffers, offsets[-1])
-            out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        elif hasattr(pyarrow.lib, "LargeListType") and isinstance(tpe, pyarrow.lib.LargeListType):
+            return lists(ARROW_LARGEINDEXTYPE)
 
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "sparse":
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
-            assert buffers.pop(0) is None
-            index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
-            contents = []
-            for i in range(num_fields(tpe)):
-                try:
-                    sublength = index[tags == i][-1] + 1
-                except IndexError:
-                    sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
-            for i in range(len(contents)):
-                these = index[tags == i]
-                if len(these) == 0:
-                    contents[i] = contents[i][0:0]
-                else:
-                    contents[i] = contents[i][: these[-1] + 1]
-            out = awkwardlib.UnionArray(tags, index, contents)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            return union(data(1, ARROW_TAGTYPE, length), awkwardlib.numpy.arange(length, dtype=ARROW_INDEXTYPE))
 
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "dense":
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
-            index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
-            contents = []
-            for i in range(num_fields(tpe)):
-                try:
-                    sublength = index[tags == i].max() + 1
-                except ValueError:
-                    sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
-            for i in range(len(contents)):
-                these = index[tags == i]
-                if len(these) == 0:
-                    contents[i] = contents[i][0:0]
-                else:
-                    contents[i] = contents[i][: these.max() + 1]
-            out = awkwardlib.UnionArray(tags, index, contents)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            return union(data(1, ARROW_TAGTYPE, length), data(2, ARROW_INDEXTYPE, length))
 
         elif tpe == pyarrow.string():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding="utf-8")
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            return strings(ARROW_INDEXTYPE, "utf-8")
 
-        elif tpe == pyarrow.large_string():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding="utf-8")
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        elif hasattr(pyarrow, "large_string") and tpe == pyarrow.large_string():
+            return strings(ARROW_LARGEINDEXTYPE, "utf-8")
 
         elif tpe == pyarrow.binary():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding=None)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            return strings(ARROW_INDEXTYPE, None)
 
-        elif tpe == pyarrow.large_binary():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding=None)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        elif hasattr(pyarrow, "large_binary") and tpe == pyarrow.large_binary():
+            return strings(ARROW_LARGEINDEXTYPE, None)
 
         elif tpe == pyarrow.bool_():
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            out = awkwardlib.numpy.unpackbits(awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)).view(awkwardlib.MaskedArray.BOOLTYPE)
-            out = out.reshape(-1, 8)[:,::-1].reshape(-1)[:length]    # lsborder=True
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            return masked(bits(1) if length > 0 else data(1, awkwardlib.MaskedArray.BOOLTYPE, 0))
 
         elif isinstance(tpe, pyarrow.lib.DataType):
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            out = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=tpe.to_pandas_dtype())[:length]
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            dtype = tpe.to_pandas_dtype()
+            if not isinstance(dtype, (type, awkwardlib.numpy.dtype)) or dtype is object or awkwardlib.numpy.dtype(dtype).itemsize * 8 != tpe.bit_width:
+                raise NotImplementedError(repr(tpe))
+            return masked(data(1, dtype, length))
 
         else:
             raise NotImplementedError(repr(tpe))
 
     if isinstance(obj, pyarrow.lib.Array):
-        buffers = obj.buffers()
-        out = popbuffers(obj, obj.type, buffers, len(obj))
-        assert len(buffers) == 0
-        return out
+        return recurse(obj)
 
     elif isinstance(obj, pyarrow.lib.ChunkedArray):
         chunks = [x for x in obj.chunks if len(x) > 0]
-- 
2.43.0


From 0aa63879707682f21ca5928d501e5dedea169aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 114/158] fix: missing lists, strings and records, and table
 views were converted to other values in Arrow

---
 awkward0/arrow.py | 92 +++++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 7dcf338..7092151 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -112,6 +112,33 @@ def schema2type(schema):
 def toarrow(obj):
     import pyarrow
 
+    def validity(mask):
+        if mask is None:
+            return None
+        else:
+            return pyarrow.py_buffer(awkward0.array.masked.BitMaskedArray.bool2bit(~mask, lsborder=True))
+
+    def withmask(obj, mask, children):
+        if mask is None:
+            return obj
+        else:
+            return pyarrow.Array.from_buffers(obj.type, len(obj), [validity(mask)] + obj.buffers()[1 : obj.type.num_buffers], children=children)
+
+    def getcolumns(table):
+        return [table[n][:len(table)] for n in table.contents]      # through views, without the ends of longer columns
+
+    def getmasked(obj, mask):
+        thismask = obj.boolmask(maskedwhen=True)
+        if mask is not None:
+            thismask = mask | thismask
+        if not isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
+            content = obj.content[:len(thismask)]
+        elif len(obj.content) == 0:
+            content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
+        else:
+            content = obj.content[obj.numpy.where(thismask, 0, obj.mask)]
+        return content, thismask
+
     def recurse(obj, mask):
         if isinstance(obj, numpy.ndarray):
             return pyarrow.array(obj, mask=mask)
@@ -130,29 +157,15 @@ def toarrow(obj):
 
         elif isinstance(obj, awkward0.array.jagged.JaggedArray):
             obj = obj.compact()
-            if mask is not None:
-                mask = obj.tojagged(mask).flatten()
             arrow_type = pyarrow.ListArray
             # 64bit offsets not yet completely golden in arrow
             # if hasattr(pyarrow, 'LargeListArray') and obj.starts.itemsize > 4:
             #     arrow_type = pyarrow.LargeListArray
-            return arrow_type.from_arrays(obj.offsets, recurse(obj.content, mask))
+            content = recurse(obj.content, None)
+            return withmask(arrow_type.from_arrays(obj.offsets, content), mask, [content])
 
-        elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
-            thismask = obj.boolmask(maskedwhen=True)
-            if mask is not None:
-                thismask = mask | thismask
-            if len(obj.content) == 0:
-                content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
-            else:
-                content = obj.content[obj.mask]
-            return recurse(content, thismask)
-
-        elif isinstance(obj, awkward0.array.masked.MaskedArray):   # includes BitMaskedArray
-            thismask = obj.boolmask(maskedwhen=True)
-            if mask is not None:
-                thismask = mask | thismask
-            return recurse(obj.content, thismask)
+        elif isinstance(obj, awkward0.array.masked.MaskedArray):   # includes IndexedMaskedArray and BitMaskedArray
+            return recurse(*getmasked(obj, mask))
 
         elif isinstance(obj, awkward0.array.objects.StringArray):
             if obj.encoding is None and hasattr(pyarrow.BinaryArray, 'from_buffers'):
@@ -162,12 +175,12 @@ def toarrow(obj):
                 # if hasattr(pyarrow, 'LargeBinaryArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
-                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [None, offsets, content])
+                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [validity(mask), offsets, content])
             elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content)
+                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content, validity(mask))
             else:
                 raise ValueError("only encoding=None or encoding='utf-8' can be converted to Arrow")
 
@@ -183,20 +196,27 @@ def toarrow(obj):
             return recurse(obj.content, mask)
 
         elif isinstance(obj, awkward0.array.table.Table):
-            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in obj.contents.values()], list(obj.contents))
+            contents = [recurse(x, None) for x in getcolumns(obj)]
+            return withmask(pyarrow.StructArray.from_arrays(contents, list(obj.contents)), mask, contents)
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
+            tags = obj.tags
+            index = obj.index[:len(tags)]
             contents = []
             for i, x in enumerate(obj.contents):
                 if mask is None:
-                    thismask = None
+                    contents.append(recurse(x, None))
                 else:
-                    thistags = (obj.tags == i)
-                    thismask = obj.numpy.empty(len(x), dtype=obj.MASKTYPE)
-                    thismask[obj.index[thistags]] = mask[thistags]    # hmm... obj.index could have repeats; the Arrow mask in that case would not be well-defined...
-                contents.append(recurse(x, thismask))
+                    # Arrow has no masks for unions, only for their contents, so the elements have to be distinct
+                    thistags = (tags == i)
+                    contents.append(recurse(x[index[thistags]], mask[thistags]))
+            if mask is not None:
+                index = obj.numpy.empty(len(tags), dtype=numpy.int32)
+                for i in range(len(contents)):
+                    thistags = (tags == i)
+                    index[thistags] = obj.numpy.arange(obj.numpy.count_nonzero(thistags))
 
-            return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(obj.index.astype(numpy.int32)), contents)
+            return pyarrow.UnionArray.from_dense(pyarrow.array(tags.astype(numpy.int8)), pyarrow.array(index.astype(numpy.int32)), contents)
 
         elif isinstance(obj, awkward0.array.virtual.VirtualArray):
             return recurse(obj.array, mask)
@@ -214,20 +234,16 @@ def toarrow(obj):
                 batches.append(pyarrow.RecordBatch.from_arrays([arr], [""]))
         return pyarrow.Table.from_batches(batches)
 
-    elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
-        mask = obj.boolmask(maskedwhen=True)
-        if len(obj.content) == 0:
-            content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
+    elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes IndexedMaskedArray and BitMaskedArray
+        content, mask = getmasked(obj, None)
+        if isinstance(content, awkward0.array.table.Table):
+            columns = getcolumns(content)
         else:
-            content = obj.content[obj.mask]
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
-
-    elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
-        mask = obj.boolmask(maskedwhen=True)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+            columns = [content for n in obj.content.contents]
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in columns], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.table.Table):
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in obj.contents.values()], list(obj.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in getcolumns(obj)], list(obj.contents))])
 
     else:
         return recurse(obj, None)
-- 
2.43.0


From 8e87e90bccd8bc7517f5377af7a95197d6c9d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 115/158] fix: parquet columns of large strings and lists
 couldn't be read

---
 awkward0/arrow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 7092151..c226fe1 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -47,7 +47,7 @@ def schema2type(schema):
             else:
                 return out
 
-        elif isinstance(tpe, pyarrow.lib.ListType):
+        elif isinstance(tpe, pyarrow.lib.ListType) or (hasattr(pyarrow.lib, "LargeListType") and isinstance(tpe, pyarrow.lib.LargeListType)):
             out = awkward0.type.ArrayType(float("inf"), recurse(tpe.value_type, nullable))
             if nullable:
                 return awkward0.type.OptionType(out)
@@ -67,13 +67,13 @@ def schema2type(schema):
             else:
                 return out
 
-        elif tpe == pyarrow.string():
+        elif tpe == pyarrow.string() or (hasattr(pyarrow, "large_string") and tpe == pyarrow.large_string()):
             if nullable:
                 return awkward0.type.OptionType(str)
             else:
                 return str
 
-        elif tpe == pyarrow.binary():
+        elif tpe == pyarrow.binary() or (hasattr(pyarrow, "large_binary") and tpe == pyarrow.large_binary()):
             if nullable:
                 return awkward0.type.OptionType(bytes)
             else:
-- 
2.43.0


From 7cd94de49e45d6832dbd1583229fce0b02e5c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 116/158] fix: chunks of empty tables couldn't be converted to
 Arrow

---
 awkward0/arrow.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index c226fe1..c24cb55 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -226,13 +226,18 @@ def toarrow(obj):
 
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):   # includes AppendableArray
         batches = []
+        schema = None
         for chunk in obj.chunks:
             arr = toarrow(chunk)
             if isinstance(arr, pyarrow.Table):
-                batches.extend(arr.to_batches())
+                batches.extend(arr.to_batches())     # none of them if empty
+                if schema is None:
+                    schema = arr.schema
             else:
                 batches.append(pyarrow.RecordBatch.from_arrays([arr], [""]))
-        return pyarrow.Table.from_batches(batches)
+                if schema is None:
+                    schema = batches[-1].schema
+        return pyarrow.Table.from_batches(batches, schema)
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes IndexedMaskedArray and BitMaskedArray
         content, mask = getmasked(obj, None)
-- 
2.43.0


From e54cbe15cef99750061f3143cc59877625289b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 117/158] fix: strings encoded as utf8 couldn't be converted to
 Arrow

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index c24cb55..df7b44b 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -176,7 +176,7 @@ def toarrow(obj):
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
                 convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [validity(mask), offsets, content])
-            elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
+            elif codecs.lookup(obj.encoding).name == codecs.lookup("utf-8").name or obj.encoding is None:
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-- 
2.43.0


From b1c6ca86067e669265dd170bf76a619c5443ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 118/158] fix: iterating over a SparseArray without unstored
 elements required a default

---
 awkward0/array/indexed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 990dea8..35c4ed0 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -517,19 +517,18 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         index = self._index
         lenindex = len(self._index)
         content = self._content
-        default = self.default
 
         i = 0
         j = self.numpy.searchsorted(index, 0, side="left")
         while i != length:
             if j == lenindex:
-                yield default
+                yield self.default
             elif index[j] == i:
                 yield content[j]
                 while j != lenindex and index[j] == i:
                     j += 1
             else:
-                yield default
+                yield self.default
             i += 1
 
     def __getitem__(self, where):
-- 
2.43.0


From 755e4104898b966befebe13d7da3b3496084065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 119/158] fix: operations on JaggedArrays and UnionArrays of
 lists nested the lists

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 07846e7..b3418f1 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1000,8 +1000,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return NotImplemented
 
         inputs = [self._util_unwrapjagged(x) for x in inputs]
-        if any(isinstance(x, self.MaskedArray) and self._util_hasjagged(x) for x in inputs):
-            return NotImplemented    # whole lists are missing; MaskedArray.__array_ufunc__ takes care of them
+        if any(isinstance(x, (self.MaskedArray, self.UnionArray)) and self._util_hasjagged(x) for x in inputs):
+            return NotImplemented    # whole lists are missing or of different types; the other array's __array_ufunc__ takes care of them
 
         starts, stops = None, None
         for i in range(len(inputs)):
-- 
2.43.0


From c457d3879e1b5f920294f1ee032be37e818e7cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 120/158] fix: operations on a Table and another array of
 records nested the columns

---
 awkward0/array/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 771ac97..c77bef7 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -688,6 +688,9 @@ class Table(awkward0.array.base.AwkwardArray):
         if method != "__call__":
             return NotImplemented
 
+        if any(isinstance(x, awkward0.array.base.AwkwardArray) and not isinstance(x, Table) and len(x.columns) != 0 for x in inputs):
+            return NotImplemented    # a Table in some other array; that array's __array_ufunc__ gets to the Table
+
         inputsdict = None
         for x in inputs:
             if isinstance(x, Table):
-- 
2.43.0


From 69e0369c46fa45ff56109ad3ac291ea42c9207bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 121/158] fix: Tables with columns other than Numpy arrays
 couldn't be compared

---
 awkward0/array/table.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index c77bef7..98197d3 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -729,14 +729,14 @@ class Table(awkward0.array.base.AwkwardArray):
         if self._util_iscomparison(ufunc):
             out = None
             for x in newcolumns.values():
-                assert isinstance(x, self.numpy.ndarray)
-                assert issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool))
+                if self._util_hasjagged(x) or len(x.shape) != 1:
+                    raise NotImplementedError("cannot compare Tables with lists in their columns")
                 if out is None:
                     out = x
                 elif ufunc is self.numpy.not_equal:
-                    out = self.numpy.bitwise_or(out, x, out=out)
+                    out = self.numpy.bitwise_or(out, x)
                 else:
-                    out = self.numpy.bitwise_and(out, x, out=out)
+                    out = self.numpy.bitwise_and(out, x)
             assert out is not None
             return out
 
-- 
2.43.0


From 19d5b714e7a69252404fe1e7c335d09d62ad755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 122/158] fix: ChunkedArray and BitMaskedArray couldn't be
 indexed by an empty list

---
 awkward0/array/chunked.py | 2 +-
 awkward0/array/masked.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 5d50f00..33d1f5b 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -462,7 +462,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             return self._withchunks(chunks=chunks)
 
         else:
-            head = self.numpy.array(head, copy=False)
+            head = self.numpy.array(self._util_toarray(head, self.INDEXTYPE), copy=False)
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 if len(head) == 0 and len(self._chunks) == 0:
                     return self._withchunks(chunks=[])
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 6af489e..3adbd24 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -610,7 +610,7 @@ class BitMaskedArray(MaskedArray):
             return self._maskwhere(self.numpy.arange(*where.indices(len(self._content))))
 
         else:
-            where = self.numpy.array(where, copy=False)
+            where = self.numpy.array(self._util_toarray(where, self.INDEXTYPE), copy=False)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
                 where = self.numpy.where(where < 0, where + len(self), where)
                 if (where < 0).any() or (where >= len(self)).any():
-- 
2.43.0


From 5f2969e9dbceafc9d5352c01b13742ef51c92748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 123/158] fix: zipping or broadcasting lists that are wrapped
 in another array duplicated the lists

---
 awkward0/array/jagged.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index b3418f1..64ab956 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -868,6 +868,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("invalid index for assigning to JaggedArray: {0}".format(where))
 
     def tojagged(self, data):
+        data = self._util_unwrapjagged(data)
+        if isinstance(data, (self.MaskedArray, self.UnionArray)) and self._util_islists(data):
+            raise NotImplementedError("cannot broadcast lists in a {0} to match JaggedArray".format(type(data).__name__))
+
         if isinstance(data, JaggedArray):
             selfcounts = self.stops - self._starts
             datacounts = data.stops - data._starts
@@ -970,10 +974,25 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             out._parents = parents
             return out
 
+    @classmethod
+    def _util_islists(cls, array):
+        # True if (any of) the elements are lists, regardless of what the JaggedArray is wrapped in
+        if isinstance(array, cls.VirtualArray.fget(None)):
+            return cls._util_islists(array.array)
+        elif isinstance(array, cls.ChunkedArray.fget(None)):
+            array._valid()
+            return any(cls._util_islists(x) for x in array._chunks)
+        elif isinstance(array, cls.UnionArray.fget(None)):
+            return any(cls._util_islists(x) for x in array._contents)
+        elif isinstance(array, (cls.IndexedArray.fget(None), cls.SparseArray.fget(None), cls.MaskedArray.fget(None))):
+            return cls._util_islists(array._content)
+        else:
+            return isinstance(array, JaggedArray)
+
     @classmethod
     def _util_unwrapjagged(cls, array):
         # a JaggedArray may be wrapped in classes that do not change its high-level type
-        while cls._util_hasjagged(array) and isinstance(array, (cls.ChunkedArray.fget(None), cls.IndexedArray.fget(None), cls.SparseArray.fget(None), cls.VirtualArray.fget(None))):
+        while cls._util_islists(array) and isinstance(array, (cls.ChunkedArray.fget(None), cls.IndexedArray.fget(None), cls.SparseArray.fget(None), cls.VirtualArray.fget(None))):
             if isinstance(array, cls.VirtualArray.fget(None)):
                 array = array.array
             elif isinstance(array, cls.SparseArray.fget(None)):
@@ -1000,7 +1019,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return NotImplemented
 
         inputs = [self._util_unwrapjagged(x) for x in inputs]
-        if any(isinstance(x, (self.MaskedArray, self.UnionArray)) and self._util_hasjagged(x) for x in inputs):
+        if any(isinstance(x, (self.MaskedArray, self.UnionArray)) and self._util_islists(x) for x in inputs):
             return NotImplemented    # whole lists are missing or of different types; the other array's __array_ufunc__ takes care of them
 
         starts, stops = None, None
@@ -1807,13 +1826,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 stops = stops.reshape((-1,) + x._starts.shape[1:])
                 return x._tojagged(starts, stops, copy=False)
 
+        columns1 = cls._util_unwrapjagged(columns1)
         if isinstance(columns1, JaggedArray):
             columns1 = first = ready(columns1)
 
         if isinstance(columns1, dict):
             columns1 = OrderedDict(columns1)
             for n in columns1:
-                x = columns1[n]
+                x = columns1[n] = cls._util_unwrapjagged(columns1[n])
                 if isinstance(x, JaggedArray):
                     if first is None:
                         columns1[n] = first = ready(x)
@@ -1822,7 +1842,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         columns2 = list(columns2)
         for i in range(len(columns2)):
-            x = columns2[i]
+            x = columns2[i] = cls._util_unwrapjagged(columns2[i])
             if isinstance(x, JaggedArray):
                 if first is None:
                     columns2[i] = first = ready(x)
@@ -1830,7 +1850,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     columns2[i] = x._tojagged(first._starts, first.stops, copy=False)
 
         for n in columns3:
-            x = columns3[n]
+            x = columns3[n] = cls._util_unwrapjagged(columns3[n])
             if isinstance(x, JaggedArray):
                 if first is None:
                     columns3[n] = first = ready(x)
-- 
2.43.0


From c0622465cc6b818144693a10fa47847317e50c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 124/158] fix: masks and indexes of lists of lists had to be
 laid out like the array they select from

---
 awkward0/array/jagged.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 64ab956..72d0742 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -559,9 +559,20 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if len(head) == 1 and isinstance(head[0], JaggedArray):
             head = head[0]
+            head._valid()
 
-            if isinstance(self._content, JaggedArray) and isinstance(head._content, JaggedArray):
-                return self.copy(content=self._content[head._content])
+            content, headcontent = self._util_unwrapjagged(self._content), self._util_unwrapjagged(head._content)
+            if isinstance(headcontent, (self.ChunkedArray, self.IndexedArray, self.SparseArray, self.VirtualArray)):
+                headcontent = self.numpy.array(headcontent)
+            if headcontent is not head._content:
+                head = head.copy(content=headcontent)
+
+            if isinstance(content, JaggedArray) and isinstance(headcontent, JaggedArray):
+                if not self.numpy.array_equal(self.counts, head.counts):
+                    raise ValueError("jagged array used as index has different counts from the jagged array it is selecting from")
+                offsets = self.counts2offsets(self.counts.reshape(-1))
+                starts, stops = offsets[:-1].reshape(self._starts.shape), offsets[1:].reshape(self._starts.shape)
+                return self.copy(starts=starts, stops=stops, content=self.copy(content=content).flatten()[head.flatten()])
 
             elif self._util_isintegertype(head._content.dtype.type):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
-- 
2.43.0


From 396f0c5337ea3909144c198f987862e44c832d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 125/158] fix: counts of MaskedArrays of lists with unsigned
 indexes; flattening MaskedArrays at axis > 0

---
 awkward0/array/masked.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 3adbd24..f51e6fa 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -258,7 +258,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def counts(self):
         self._valid()
         content = self._util_counts(self._unmaskedcontent())
-        out = self.numpy.full(len(self), -1, dtype=content.dtype)
+        out = self.numpy.full(len(self), -1, dtype=self.INDEXTYPE)
         out[self.boolmask(maskedwhen=False)] = content
         return out
 
@@ -293,8 +293,14 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         mask = self.boolmask(maskedwhen=False)
         goodcontent = self._unmaskedcontent()
         content = self._util_flatten(goodcontent, axis)
+        if axis > 0:
+            # lists are joined within the elements: as many elements as before
+            index = self.numpy.cumsum(mask) - 1
+            index[~mask] = -1
+            return self.IndexedMaskedArray(index, content)
+
         counts = self._util_counts(goodcontent)
-        counts[counts < 0] = 1
+        counts = self.numpy.where(counts < 0, 1, counts)
         augcounts = self.numpy.ones(len(self), dtype=self.INDEXTYPE)
         augcounts[mask] = counts
         augparents = self.JaggedArray.offsets2parents(self.JaggedArray.counts2offsets(augcounts))
-- 
2.43.0


From c8d12247b59e9ffe0ac1aaf6d101a34734a8ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 126/158] fix: a deepcopy of a StringArray shared its offsets
 with the original

---
 awkward0/array/objects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 42293b1..d940c19 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -549,9 +549,7 @@ class StringArray(StringMethods, ObjectArray):
 
     def deepcopy(self, starts=None, stops=None, content=None, encoding=None):
         out = self.copy(starts=starts, stops=stops, content=content, encoding=encoding)
-        out._content._starts = self._util_deepcopy(out._content._starts)
-        out._content._stops = self._util_deepcopy(out._content._stops)
-        out._content._content = self._util_deepcopy(out._content._content)
+        out._content = self._util_deepcopy(out._content)
         return out
 
     def empty_like(self, **overrides):
-- 
2.43.0


From 2de8055911ae98ef58cde16e3624dd46db6e4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 127/158] fix: fromoffsets accepted empty and multidimensional
 offsets

---
 awkward0/array/jagged.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 72d0742..d0b094f 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -158,6 +158,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def fromoffsets(cls, offsets, content):
         offsets = cls._util_toarray(offsets, cls.INDEXTYPE, cls.numpy.ndarray)
+        if len(offsets.shape) != 1:
+            raise ValueError("offsets must be one-dimensional")
+        if len(offsets) == 0:
+            raise ValueError("offsets must be non-empty")
         if hasattr(offsets.base, 'base') and type(offsets.base.base).__module__ == "pyarrow.lib" and type(offsets.base.base).__name__ == "Buffer":
             # special exception to prevent copy in awkward0.fromarrow
             pass
-- 
2.43.0


From a4610182cef65c99befeefef382755042f45b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 128/158] fix: UnionArray tags were cast before they were
 checked; reducing didn't check tags and index

---
 awkward0/array/union.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index ccf9e70..d1a9749 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -103,6 +103,11 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @tags.setter
     def tags(self, value):
         value = self._util_toarray(value, self.TAGTYPE, self.numpy.ndarray)
+        if self.check_prop_valid:
+            if not self._util_isintegertype(value.dtype.type):
+                raise TypeError("tags must have integer dtype")
+            if (value < 0).any():
+                raise ValueError("tags must be a non-negative array")
         tagsmax = value.max() if value.size != 0 else 0
         if tagsmax <= self.numpy.iinfo(self.TAGTYPE).max:
             value = value.astype(self.TAGTYPE)
@@ -116,12 +121,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             value = value.astype(self.numpy.uint64)
         else:
             raise ValueError("maximum tag must be at most {0}".format(self.numpy.iinfo(self.numpy.uint64).max))
-
-        if self.check_prop_valid:
-            if not self._util_isintegertype(value.dtype.type):
-                raise TypeError("tags must have integer dtype")
-            if (value < 0).any():
-                raise ValueError("tags must be a non-negative array")
         self._tags = value
         self._isvalid = False
 
@@ -256,8 +255,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._tags.shape) > len(self._index.shape):
-                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags.shape), len(self._index.shape)))
+                if len(self._tags) > len(self._index):
+                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags), len(self._index)))
 
                 if self._tags.shape[1:] != self._index.shape[1:]:
                     raise ValueError("tags dimensionality ({0}) must be equal to index dimensionality ({1})".format(self._tags.shape[1:], self._index.shape[1:]))
@@ -556,6 +555,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
+        self._valid()
         index = self._index[:len(self._tags)]
         masks, parts = [], []
         for tag, content in enumerate(self._contents):
-- 
2.43.0


From 68031cf24918933f6ec09f12a1254ea7598bf88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 129/158] fix: reducing a MaskedArray didn't check its mask

---
 awkward0/array/masked.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f51e6fa..52e5491 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -325,6 +325,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return IndexedMaskedArray(maskindex, self._content, maskedwhen=-1)
 
     def _reduce(self, ufunc, identity, dtype):
+        self._valid()
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
         else:
@@ -335,6 +336,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self._content[:len(mask)][mask]
 
     def _prepare(self, ufunc, identity, dtype):
+        self._valid()
         mask = self.boolmask(maskedwhen=False)
         content = self._unmaskedcontent()
 
-- 
2.43.0


From 02d273b10082fa5d6f8038f9c87c0322a9fd4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 130/158] fix: iterating over a ChunkedArray didn't check its
 chunksizes

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 33d1f5b..07ea7b9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -301,6 +301,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
+        self._valid()
         for i, chunk in enumerate(self._chunks):
             if i >= len(self._chunksizes):
                 self._chunksizes.append(len(chunk))
-- 
2.43.0


From 4139f30305710a6b81adf4ce5effd7aefbd7f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 131/158] fix: chunkshape of an AppendableArray could not be a
 tuple with check_prop_valid off

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 07ea7b9..40e0d38 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -1010,7 +1010,7 @@ class AppendableArray(ChunkedArray):
                     raise TypeError("chunkshape must be a positive integer or a tuple of integers")
                 except AssertionError:
                     raise ValueError("chunkshape must be a positive integer or tuple of positive integers")
-                self._chunkshape = tuple(value)
+            self._chunkshape = tuple(value)
 
     @property
     def dtype(self):
-- 
2.43.0


From 87fd99c65e5b3357ab8bfba3d4501939bb8779bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 132/158] fix: nbytes of a VirtualArray could not be set with
 check_prop_valid off

---
 awkward0/array/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 9bcb590..057ce05 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -276,7 +276,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     raise TypeError("nbytes must be an integer or None")
                 if value < 0:
                     raise ValueError("nbytes must be a non-negative integer or None")
-            self._nbytes = value
+        self._nbytes = value
 
     def __len__(self):
         return self.shape[0]
-- 
2.43.0


From 8a9b0791c8fdddc2adee2c9d21758e81aa92962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 133/158] fix: topandas with flatten=True gave wrong values or
 indexes for IndexedMaskedArrays, lists not in storage order, lists in several
 nested tables, and lists of different structure

---
 awkward0/util.py | 51 ++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/awkward0/util.py b/awkward0/util.py
index 358c664..0fbe2db 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -251,19 +251,22 @@ def topandas_flatten(array):
             if any(isinstance(x, awkward0.array.jagged.JaggedArray) for x in chunks):
                 return awkward0.array.jagged.JaggedArray.concatenate(chunks)
             else:
-                return numpy.concatenate([x.regular() for x in chunks])
+                return numpy.concatenate([x if isinstance(x, numpy.ndarray) else x.regular() for x in chunks])
         elif isinstance(a, awkward0.array.virtual.VirtualArray):
-            return a.array
+            return unwrap(a.array)
+        elif isinstance(a, awkward0.array.jagged.JaggedArray):
+            return a.compact()       # lists in the order of their elements
         else:
             return a
 
     globalindex = [None]
-    localindex = []
     columns = []
+
+    # returns the flattened array and its local index: the position of each of its elements in each level of lists
     def recurse(array, tpe, cols, seriously):
         if isinstance(tpe, awkward0.type.TableType):
-            starts, stops = None, None
-            out, deferred, unflattened = None, {}, None
+            starts, stops, localindex = None, None, None
+            out, deferred = None, {}
 
             for n in tpe.columns:
                 if not isinstance(n, str):
@@ -271,6 +274,7 @@ def topandas_flatten(array):
 
                 arrayn = unwrap(array[n])
                 tpen = tpe[n]
+                indexn = []
                 colsn = cols + (n,) if seriously else cols
 
                 if isinstance(arrayn, awkward0.array.objects.ObjectArray) and not isinstance(arrayn, awkward0.array.objects.StringArray):
@@ -286,26 +290,32 @@ def topandas_flatten(array):
                     tmp = arrayn
 
                 elif isinstance(tpen, awkward0.type.ArrayType) and tpen.takes == numpy.inf:
-                    tmp = JaggedArray(arrayn.starts, arrayn.stops, recurse(arrayn.content, tpen.to, colsn, True))
+                    content, indexn = recurse(arrayn.content, tpen.to, colsn, True)
+                    tmp = JaggedArray(arrayn.starts, arrayn.stops, content)
+                    position = arrayn.localindex.flatten()
+                    if isinstance(content, awkward0.array.jagged.JaggedArray):
+                        position = numpy.repeat(position, windows_safe(content.counts))
+                    indexn = [position] + indexn
 
                 elif isinstance(tpen, awkward0.type.TableType):
-                    tmp = recurse(arrayn, tpen, colsn, True)
+                    tmp, indexn = recurse(arrayn, tpen, colsn, True)
 
                 elif isinstance(tpen, awkward0.type.OptionType) and isinstance(arrayn.content, numpy.ndarray):
                     columns.append(colsn)
-                    tmp = numpy.ma.MaskedArray(arrayn.content, arrayn.boolmask(maskedwhen=True))
+                    mask = arrayn.boolmask(maskedwhen=True)
+                    tmp = numpy.ma.MaskedArray(numpy.zeros(mask.shape + arrayn.content.shape[1:], dtype=arrayn.content.dtype), mask)
+                    tmp[~mask] = arrayn._unmaskedcontent()
 
                 else:
                     raise ValueError("this array has unflattenable substructure:\n\n{0}".format(str(tpen)))
 
                 if isinstance(tmp, awkward0.array.jagged.JaggedArray):
                     if isinstance(tmp.content, awkward0.array.jagged.JaggedArray):
-                        unflattened = tmp
                         tmp = tmp.flatten(axis=1)
 
                     if starts is None:
-                        starts, stops = tmp.starts, tmp.stops
-                    elif not numpy.array_equal(starts, tmp.starts) or not numpy.array_equal(stops, tmp.stops):
+                        starts, stops, localindex = tmp.starts, tmp.stops, indexn
+                    elif not numpy.array_equal(starts, tmp.starts) or not numpy.array_equal(stops, tmp.stops) or len(localindex) != len(indexn) or not all(numpy.array_equal(x, y) for x, y in zip(localindex, indexn)):
                         raise ValueError("this array has more than one jagged array structure")
                     if out is None:
                         out = JaggedArray(starts, stops, Table({n: tmp.content}))
@@ -327,24 +337,13 @@ def topandas_flatten(array):
             out[m] = numpy.arange(len(out))
             globalindex[0] = out[m].flatten()
 
-            for n in tpe.columns:
-                arrayn = unwrap(array[n])
-                if isinstance(arrayn, awkward0.array.jagged.JaggedArray):
-                    if unflattened is None:
-                        localindex.insert(0, out[n].localindex.flatten())
-                    else:
-                        oldloc = unflattened.content.localindex
-                        tab = JaggedArray(oldloc.starts, oldloc.stops, Table({"oldloc": oldloc.content}))
-                        tab["newloc"] = arrayn.localindex.flatten()
-                        localindex.insert(0, tab["newloc"].flatten())
-                    break
-
-            return out[tpe.columns]
+            return out[tpe.columns], ([] if localindex is None else localindex)
 
         else:
-            return recurse(Table({"": array}), awkward0.type.TableType(**{"": tpe}), cols, False)[""]
+            out, localindex = recurse(Table({"": array}), awkward0.type.TableType(**{"": tpe}), cols, False)
+            return out[""], localindex
 
-    tmp = recurse(array, awkward0.type.fromarray(array).to, (), True)
+    tmp, localindex = recurse(array, awkward0.type.fromarray(array).to, (), True)
     if isinstance(tmp, awkward0.array.jagged.JaggedArray):
         tmp = tmp.flatten()
 
-- 
2.43.0


From d508797535f69f73bebdcc9d833afdd495b8e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 134/158] fix: Pandas series of VirtualArrays, ChunkedArrays
 and BitMaskedArrays, and arithmetic with series, failed

---
 awkward0/array/virtual.py |  5 +++--
 awkward0/pandas.py        | 43 ++++++++++++++++++++++++++-------------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 057ce05..bd76dd3 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -534,7 +534,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @staticmethod
     def _topandas_doit(virtualarray):
-        return virtualarray.array._topandas()
+        array = virtualarray.array
+        return array._topandas({}) if isinstance(array, awkward0.array.base.AwkwardArray) else array
 
     _topandas_name = "VirtualSeries"
 
@@ -543,6 +544,6 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return seen[id(self)]
         else:
-            out = seen[id(self)] = self.VirtualArray(self._topandas_doit, (self,), cache=self.cache, persistentkey=self.persistentkey, type=self.type, nbytes=self.nbytes, persistvirtual=self.persistvirtual)
+            out = seen[id(self)] = self.VirtualArray(self._topandas_doit, (self,), type=self._type, nbytes=self._nbytes)
             out.__class__ = awkward0.pandas.mixin(type(self))
             return out
diff --git a/awkward0/pandas.py b/awkward0/pandas.py
index c208f32..4623705 100644
--- a/awkward0/pandas.py
+++ b/awkward0/pandas.py
@@ -92,7 +92,13 @@ class AwkwardSeries(object):
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         out = self._findclass(type(self)).__array_ufunc__(self, ufunc, method, *inputs, **kwargs)
-        return out.pandas
+        return out._topandas({}) if isinstance(out, awkward0.array.base.AwkwardArray) and not isinstance(out, AwkwardSeries) else out
+
+    def astype(self, dtype, copy=True):
+        if is_awkward_type(dtype):
+            return self.copy() if copy else self
+        else:
+            return self._findclass(type(self)).astype(self, dtype)
 
     def isna(self):
         return self.numpy.zeros(self.shape, dtype=self.BOOLTYPE)
@@ -101,57 +107,66 @@ class AwkwardSeries(object):
     def _concat_same_type(cls, to_concat):
         return cls.concatenate(to_concat)
 
+    @staticmethod
+    def _mixed(self, name):
+        if self is None:           # called from a class method
+            return getattr(awkward0.array.base.AwkwardArray, name).fget(None)
+        else:
+            return mixin(getattr(AwkwardSeries._findclass(type(self)), name).fget(self))
+
     @property
     def ChunkedArray(self):
-        return mixin(self._findclass(type(self)).ChunkedArray.fget(self))
+        return AwkwardSeries._mixed(self, "ChunkedArray")
 
     @property
     def AppendableArray(self):
-        return mixin(self._findclass(type(self)).AppendableArray.fget(self))
+        return AwkwardSeries._mixed(self, "AppendableArray")
 
     @property
     def IndexedArray(self):
-        return mixin(self._findclass(type(self)).IndexedArray.fget(self))
+        return AwkwardSeries._mixed(self, "IndexedArray")
 
     @property
     def SparseArray(self):
-        return mixin(self._findclass(type(self)).SparseArray.fget(self))
+        return AwkwardSeries._mixed(self, "SparseArray")
 
     @property
     def JaggedArray(self):
-        return mixin(self._findclass(type(self)).JaggedArray.fget(self))
+        return AwkwardSeries._mixed(self, "JaggedArray")
 
     @property
     def MaskedArray(self):
-        return mixin(self._findclass(type(self)).MaskedArray.fget(self))
+        return AwkwardSeries._mixed(self, "MaskedArray")
 
     @property
     def BitMaskedArray(self):
-        return mixin(self._findclass(type(self)).BitMaskedArray.fget(self))
+        return AwkwardSeries._mixed(self, "BitMaskedArray")
 
     @property
     def IndexedMaskedArray(self):
-        return mixin(self._findclass(type(self)).IndexedMaskedArray.fget(self))
+        return AwkwardSeries._mixed(self, "IndexedMaskedArray")
 
     @property
     def ObjectArray(self):
-        return mixin(self._findclass(type(self)).ObjectArray.fget(self))
+        return AwkwardSeries._mixed(self, "ObjectArray")
 
     @property
     def StringArray(self):
-        return mixin(self._findclass(type(self)).StringArray.fget(self))
+        return AwkwardSeries._mixed(self, "StringArray")
 
     @property
     def Table(self):
-        return mixin(self._findclass(type(self)).Table.fget(self))
+        return AwkwardSeries._mixed(self, "Table")
 
     @property
     def UnionArray(self):
-        return mixin(self._findclass(type(self)).UnionArray.fget(self))
+        return AwkwardSeries._mixed(self, "UnionArray")
 
     @property
     def VirtualArray(self):
-        return mixin(self._findclass(type(self)).VirtualArray.fget(self))
+        return AwkwardSeries._mixed(self, "VirtualArray")
 
 def mixin(tpe):
+    if issubclass(tpe, AwkwardSeries):
+        return tpe
     return type(tpe._topandas_name, (AwkwardSeries, tpe, pandas.api.extensions.ExtensionArray), {})
-- 
2.43.0


From d6c1639d024accba10878cb969f6aa498be6b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 135/158] fix: topandas with flatten=True refused lists that
 don't start at the beginning of their content

---
 awkward0/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/util.py b/awkward0/util.py
index 0fbe2db..27983d5 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -255,7 +255,7 @@ def topandas_flatten(array):
         elif isinstance(a, awkward0.array.virtual.VirtualArray):
             return unwrap(a.array)
         elif isinstance(a, awkward0.array.jagged.JaggedArray):
-            return a.compact()       # lists in the order of their elements
+            return JaggedArray.fromcounts(a.counts, a.flatten())     # without anything between, before or after the lists
         else:
             return a
 
-- 
2.43.0


From 90fcbdf830bf8c2a40003559afb43b101c4591d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 136/158] fix: arrays longer than 6, and arrays whose content
 was one with allow_iter off, could not be printed

---
 awkward0/array/base.py    | 9 ++++++++-
 awkward0/array/chunked.py | 2 +-
 awkward0/array/objects.py | 2 +-
 awkward0/array/virtual.py | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index e537cb2..2163141 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -106,7 +106,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             if isinstance(first, AwkwardArray):
                 first = first.__iter__(checkiter=False)
             last = self[-3:]
-            if isinstance(first, AwkwardArray):
+            if isinstance(last, AwkwardArray):
                 last = last.__iter__(checkiter=False)
 
             return "[{0} ... {1}]".format(" ".join(self._util_arraystr(x) for x in first), " ".join(self._util_arraystr(x) for x in last))
@@ -409,6 +409,13 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return repr(x)
 
+    @classmethod
+    def _util_iter(cls, array, checkiter):
+        if isinstance(array, AwkwardArray):
+            return array.__iter__(checkiter=checkiter)
+        else:
+            return iter(array)
+
     @classmethod
     def _util_arraystr(cls, array):
         if isinstance(array, cls.numpy.ndarray):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 40e0d38..8160df5 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -305,7 +305,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         for i, chunk in enumerate(self._chunks):
             if i >= len(self._chunksizes):
                 self._chunksizes.append(len(chunk))
-            for x in chunk[:self._chunksizes[i]]:
+            for x in self._util_iter(chunk[:self._chunksizes[i]], checkiter):
                 yield x
 
     def __array__(self, *args, **kwargs):
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index d940c19..e8771aa 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -174,7 +174,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
-        for x in self._content:
+        for x in self._util_iter(self._content, checkiter):
             yield self.generator(x, *self._args, **self._kwargs)
 
     def __getitem__(self, where):
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index bd76dd3..92206a2 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -389,7 +389,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
-        return iter(self.array)
+        return self._util_iter(self.array, checkiter)
 
     def __array__(self, *args, **kwargs):
         self._checktonumpy()
-- 
2.43.0


From 9d4342f84accc0d0bff0a7ceeaaee4d6ada6a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 137/158] fix: assigning a column to an IndexedMaskedArray put
 the values in the order of its content, not of its rows

---
 awkward0/array/masked.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 52e5491..04f7e33 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -752,6 +752,28 @@ class IndexedMaskedArray(MaskedArray):
         self._maskedwhen = value
         self._isvalid = False
 
+    def __setitem__(self, where, what):
+        self._valid()
+        what = self._util_toarray(what, self.DEFAULTTYPE)
+        if what.shape[:1] != self._mask.shape:
+            raise ValueError("array to assign does not have the same length as mask")
+
+        good = self.boolmask(maskedwhen=False)
+        inverse = self.IndexedArray.invert(self._mask[good])
+
+        if isinstance(where, awkward0.util.string):
+            self._content[where] = self.IndexedArray(inverse, what[good])
+
+        elif self._util_isstringslice(where):
+            what = what.unzip()
+            if len(where) != len(what):
+                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+            for x, y in zip(where, what):
+                self._content[x] = self.IndexedArray(inverse, y[good])
+
+        else:
+            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
+
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
             raise TypeError("maskedwhen must be True or False")
-- 
2.43.0


From e292f6ecb6409857e06d30ccb629cb4ad6b5342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 138/158] fix: refused column changes of ChunkedArrays and
 UnionArrays were done in part, and ChunkedArrays kept the type they had

---
 awkward0/array/base.py    | 27 +++++++++++++++++++++++++++
 awkward0/array/chunked.py | 21 +++++++++++++--------
 awkward0/array/union.py   | 26 ++++++++++++--------------
 3 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 2163141..bdc1dd5 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -701,6 +701,33 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return array.fillna(value)
 
+    @classmethod
+    def _util_setcolumns(cls, assignments):
+        # assign to all of the arrays or, if one of them refuses, to none
+        done = []
+        try:
+            for array, where, what in assignments:
+                before = array[where] if isinstance(array, AwkwardArray) and where in array.columns else None
+                array[where] = what
+                done.append((array, where, before))
+        except Exception:
+            for array, where, before in reversed(done):
+                if before is None:
+                    del array[where]
+                else:
+                    array[where] = before
+            raise
+
+    @classmethod
+    def _util_delcolumns(cls, names, arrays):
+        for array in arrays:
+            for n in names:
+                if isinstance(array, AwkwardArray) and n not in array.columns:
+                    raise KeyError(n)
+        for array in arrays:
+            for n in names:
+                del array[n]
+
     @classmethod
     def _util_columns_descend(cls, array, seen):
         if isinstance(array, cls.numpy.ndarray):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8160df5..413613d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -571,22 +571,27 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def __setitem__(self, where, what):
         if isinstance(what, ChunkedArray) and self._aligned(what):
-            for i, (mine, theirs) in enumerate(zip(self._chunks, what._chunks)):
-                mine[where] = theirs
-                self._types[i] = mine.type.to
+            if isinstance(where, awkward0.util.string):
+                self._util_setcolumns([(mine, where, theirs) for mine, theirs in zip(self._chunks, what._chunks)])
+            elif self._util_isstringslice(where):
+                what = what.unzip()
+                if len(where) != len(what):
+                    raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+                self._util_setcolumns([(mine, x, theirs) for x, y in zip(where, what) for mine, theirs in zip(self._chunks, y._chunks)])
+            else:
+                raise TypeError("invalid index for assigning column to Table: {0}".format(where))
+            self._types = [None] * len(self._chunks)
         else:
             raise ValueError("only ChunkedArrays with the same chunk sizes can be assigned to columns of a ChunkedArray")
 
     def __delitem__(self, where):
         if isinstance(where, awkward0.util.string):
-            for chunk in self._chunks:
-                del chunk[where]
+            self._util_delcolumns([where], self._chunks)
         elif self._util_isstringslice(where):
-            for chunk in self._chunks:
-                for x in where:
-                    del chunk[x]
+            self._util_delcolumns(where, self._chunks)
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
+        self._types = [None] * len(self._chunks)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index d1a9749..61ae709 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -372,33 +372,31 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             raise ValueError("array to assign does not have the same starting shape as tags")
 
         if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                mask = (self._tags == tag)
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
-                self._contents[tag][where] = self.IndexedArray(inverseindex, what[mask])
+            self._setcolumns([where], [what])
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for tag in self.numpy.unique(self._tags):
-                mask = (self._tags == tag)
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
-                for x, y in zip(where, what):
-                    self._contents[tag][x] = self.IndexedArray(inverseindex, y[mask])
+            self._setcolumns(where, what)
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
 
+    def _setcolumns(self, where, what):
+        assignments = []
+        for tag in self.numpy.unique(self._tags):
+            mask = (self._tags == tag)
+            inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
+            assignments.extend((self._contents[tag], x, self.IndexedArray(inverseindex, y[mask])) for x, y in zip(where, what))
+        self._util_setcolumns(assignments)
+
     def __delitem__(self, where):
         if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                del self._contents[tag][where]
+            self._util_delcolumns([where], [self._contents[tag] for tag in self.numpy.unique(self._tags)])
 
         elif self._util_isstringslice(where):
-            for tag in self.numpy.unique(self._tags):
-                for x in where:
-                    del self._contents[tag][x]
+            self._util_delcolumns(where, [self._contents[tag] for tag in self.numpy.unique(self._tags)])
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-- 
2.43.0


From a5f1beab76cbaca1d169a615d60beadb26947533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 139/158] fix: topandas could replace one array of strings by
 another, by reusing the id of a temporary copy

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index e8771aa..14c8550 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -781,5 +781,5 @@ class StringArray(StringMethods, ObjectArray):
             out = seen[id(self)] = self.copy()
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
-                out._content = out._content._topandas(seen)
+                out._content = self._content._topandas(seen)    # not out._content, which is a copy that would be lost (and its id reused)
             return out
-- 
2.43.0


From 4532dc6b37fc6076376485e03a36f4da0d02e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 140/158] fix: deep copies of a ChunkedArray shared its offsets

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 413613d..b1e1f6c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -33,6 +33,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
         out._chunks = [self._util_deepcopy(x) for x in out._chunks]
+        out._offsets = None             # computed again when needed, rather than shared
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From 811e31fce1a8f26867f173efb3cacc93c4d55bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 141/158] fix: dtype of a Table with a column of strings or
 objects raised AttributeError

---
 awkward0/type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index c778f83..6f0434e 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -361,7 +361,9 @@ class TableType(Type):
     def dtype(self):
         out = []
         for n, x in self._fields.items():
-            if x.shape != ():
+            if not isinstance(x, (Type, numpy.dtype)):
+                out.append((n, numpy.dtype(object)))
+            elif x.shape != ():
                 raise TypeError("Table with non-primitive fields has no Numpy dtype")
             elif isinstance(x, numpy.dtype):
                 out.append((n, x))
-- 
2.43.0


From 4e5f1b236ae700b4d5c1161111c612c7b95d81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 142/158] fix: failing to open a file left errors in the
 finaliser of Load

---
 awkward0/persist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 6fd867f..cfdae76 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -836,7 +836,8 @@ class Load(Mapping):
         self._file.f.close()
 
     def __del__(self):
-        self.close()
+        if hasattr(self, "_file"):     # the file might not have been opened
+            self.close()
 
     def __enter__(self, *args, **kwds):
         return self
-- 
2.43.0


From 38bebaa1ff32fc9929b2761f2d9a5ac808cfb48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:19 +0000
Subject: [PATCH 143/158] fix: unsigned 64-bit structure in another byte order
 could not be indexed or reduced

---
 awkward0/array/jagged.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index d0b094f..d67d233 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -37,7 +37,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _index64(cls, array):
         # Numpy promotes uint64 with any signed integer to float64, which can't be used as an index
-        if array.dtype == cls.numpy.dtype(cls.numpy.uint64):
+        if issubclass(array.dtype.type, cls.numpy.uint64):
             return array.astype(cls.JaggedArray.fget(None).INDEXTYPE)
         else:
             return array
@@ -59,8 +59,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def startsstops2parents(cls, starts, stops):
         assert starts.shape == stops.shape
-        starts = starts.reshape(-1)  # flatten in case multi-d jagged
-        stops = stops.reshape(-1)
+        starts = cls._index64(starts.reshape(-1))  # flatten in case multi-d jagged
+        stops = cls._index64(stops.reshape(-1))
         dtype = cls.JaggedArray.fget(None).INDEXTYPE
         out = cls.numpy.full(stops.max() if len(stops) != 0 else 0, -1, dtype=dtype)
         indices = cls.numpy.arange(len(starts), dtype=dtype)
-- 
2.43.0


From 1dca85a34f84625e428aad5ddecd5e88d4c7d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 144/158] fix: default of a SparseArray of lists, records or
 strings depended on their representation

---
 awkward0/array/indexed.py | 57 ++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 35c4ed0..529bb0d 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -440,22 +440,23 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     @property
     def default(self):
         if self._default is None:
-            if isinstance(self._content, awkward0.array.jagged.JaggedArray):
-                return self._content.content[:0]
-            elif isinstance(self._content, awkward0.array.masked.MaskedArray):
-                return self._content.masked
-            elif isinstance(self._content, awkward0.array.objects.StringArray):
-                return b"" if self._content.encoding is None else ""
-            elif isinstance(self._content, awkward0.array.objects.ObjectArray):
+            content = self._util_unwrapped(self._content)
+            if isinstance(content, SparseArray):
+                return content.default
+            elif isinstance(content, awkward0.array.jagged.JaggedArray):
+                return content.content[:0]
+            elif isinstance(content, awkward0.array.masked.MaskedArray):
+                return content.masked
+            elif isinstance(content, awkward0.array.objects.StringArray):
+                return b"" if content.encoding is None else ""
+            elif isinstance(content, awkward0.array.objects.ObjectArray):
                 return None
-            elif isinstance(self._content, awkward0.array.table.Table):
+            elif isinstance(content, awkward0.array.table.Table):
                 return self._util_defaultarray()[0]
-            elif isinstance(self._content, awkward0.array.chunked.ChunkedArray) and len(self._content.chunks) > 0:
-                return self.copy(length=0, index=self._index[:0], content=self._content.chunks[0]).default
-            elif self._content.shape[1:] == ():
-                return self._content.dtype.type(0)
+            elif content.shape[1:] == ():
+                return content.dtype.type(0)
             else:
-                return self.numpy.zeros(self._content.shape[1:], dtype=self._content.dtype)
+                return self.numpy.zeros(content.shape[1:], dtype=content.dtype)
 
         else:
             return self._default
@@ -466,15 +467,33 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     def default(self, value):
         self._default = value
 
+    @classmethod
+    def _util_unwrapped(cls, content):
+        # an array with the same kind of elements that has a default of its own
+        while True:
+            if isinstance(content, awkward0.array.virtual.VirtualArray):
+                content = content.array
+            elif isinstance(content, awkward0.array.chunked.ChunkedArray) and len(content.chunks) > 0:
+                content = content.chunks[0]
+            elif isinstance(content, awkward0.array.union.UnionArray) and len(content.contents) > 0:
+                content = content.contents[0]
+            elif isinstance(content, IndexedArray) and len(content.index.shape) == 1:
+                content = content.content
+            else:
+                return content
+
     def _util_defaultarray(self):
         # an array with the default as its only element
-        if self._default is None and isinstance(self._content, awkward0.array.jagged.JaggedArray):
-            return self.JaggedArray([0], [0], self._content.content)
-        elif self._default is None and isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
+        content = self._util_unwrapped(self._content)
+        if self._default is None and isinstance(content, SparseArray):
+            return content._util_defaultarray()
+        elif self._default is None and isinstance(content, awkward0.array.jagged.JaggedArray):
+            return self.JaggedArray([0], [0], content.content)
+        elif self._default is None and isinstance(content, awkward0.array.table.Table):
+            out = content.copy(contents={})
             out._view = None
-            for n in self._content.columns:
-                out._contents[n] = self.SparseArray(1, [], self._content[n])
+            for n in content.columns:
+                out._contents[n] = self.SparseArray(1, [], content[n])
             return out
         else:
             return self.numpy.array([self.default])
-- 
2.43.0


From cb332f518786a94487a5cefffbbb17c22e68844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 145/158] fix: an empty index of the elements of lists was
 refused

---
 awkward0/array/jagged.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index d67d233..9347fe4 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -747,7 +747,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 node = node.copy(starts=newoffsets[:-1], stops=newoffsets[1:], content=newcontent)
 
             else:
-                head = self.numpy.array(head, copy=False)
+                head = self.numpy.array(self._util_toarray(head, self.INDEXTYPE), copy=False)
                 if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                     if wasslice:
                         stack = []
@@ -759,15 +759,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         index = self.numpy.tile(head, nrows)
                         mask = (index < 0)
                         if mask.any():
-                            pluscounts = (index.reshape(-1, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
+                            pluscounts = (index.reshape(nrows, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
                             index[mask] = pluscounts[mask]
-                        if (index < 0).any() or (index.reshape(-1, len(head)) >= node.counts.reshape(-1, 1)).any():
+                        if (index < 0).any() or (index.reshape(nrows, len(head)) >= node.counts.reshape(-1, 1)).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
-                        index = (index.reshape(-1, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        index = (index.reshape(nrows, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node._starts = node._starts.reshape(nrows, len(head))
+                            node._stops = node._stops.reshape(nrows, len(head))
                         elif isinstance(node, self.numpy.ndarray):
                             node = node.reshape((nrows, len(head)) + node.shape[1:])
                         else:
@@ -803,8 +803,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         index = (index.reshape(len(node), len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node._starts = node._starts.reshape(nrows, len(head))
+                            node._stops = node._stops.reshape(nrows, len(head))
                         elif isinstance(node, self.numpy.ndarray):
                             node = node.reshape((nrows, len(head)) + node.shape[1:])
                         else:
-- 
2.43.0


From 629b373b23fdb27f9466a9d580c0badd9449a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 146/158] fix: unsigned 64-bit index of the elements of lists
 was refused

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 9347fe4..7cfc501 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -747,7 +747,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 node = node.copy(starts=newoffsets[:-1], stops=newoffsets[1:], content=newcontent)
 
             else:
-                head = self.numpy.array(self._util_toarray(head, self.INDEXTYPE), copy=False)
+                head = self._index64(self.numpy.array(self._util_toarray(head, self.INDEXTYPE), copy=False))
                 if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                     if wasslice:
                         stack = []
-- 
2.43.0


From df54b4fa0b7a2928958d6ff8201f1223e0578bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 147/158] fix: a jagged mask with other row lengths assigned to
 the wrong elements

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 7cfc501..a683146 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -872,6 +872,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 self._content[indexes] = what
 
             elif issubclass(where._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
+                if not self.numpy.array_equal(where.counts, self.counts):
+                    raise ValueError("jagged mask has different counts from the jagged array it is assigning to")
                 index = self.localindex + self.starts
                 flatindex = index.flatten()[where.flatten()]
                 self._content[flatindex] = what
-- 
2.43.0


From db6794eca4cc882eac0f688b37d90a1dcad9e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 148/158] fix: assigning a jagged array moved its values into
 other rows

---
 awkward0/array/jagged.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index a683146..2634634 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -844,6 +844,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
+                whatcounts = where.counts if self._util_isintegertype(where._content.dtype.type) else where.sum()
+                if not self.numpy.array_equal(what.counts, whatcounts):
+                    raise ValueError("jagged array to assign has different counts from the selected elements")
                 what = what.flatten()
 
             if len(where.shape) == 1:
-- 
2.43.0


From bdf1ef6ab27b4b515ace12d588f1db865b8426f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 149/158] fix: unsigned jagged index was refused when assigning

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 2634634..4b206aa 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -862,7 +862,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
                 counts = where.tojagged(self.counts)._content
 
-                indexes = self.numpy.array(where._content[:whereoffsets[-1]], copy=True)
+                indexes = self.numpy.array(where._content[:whereoffsets[-1]], dtype=self.INDEXTYPE, copy=True)
 
                 negatives = (indexes < 0)
                 indexes[negatives] += counts[negatives]
-- 
2.43.0


From e81fd6f40ff6ab98449983291082e9190a97cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 150/158] fix: assigning elements of a jagged array to others
 of the same array read overwritten values

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 4b206aa..31951d5 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -848,6 +848,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if not self.numpy.array_equal(what.counts, whatcounts):
                     raise ValueError("jagged array to assign has different counts from the selected elements")
                 what = what.flatten()
+            if isinstance(what, self.numpy.ndarray) and isinstance(self._content, self.numpy.ndarray) and self.numpy.may_share_memory(what, self._content):
+                what = what.copy()
 
             if len(where.shape) == 1:
                 if where._starts.shape != self._starts.shape:
-- 
2.43.0


From 3b5a52825040d32a7f22f44c6effca2580a432b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 151/158] fix: a refused assignment to elements of a
 VirtualArray had been made already

---
 awkward0/array/virtual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 92206a2..3818bee 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -399,6 +399,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self.array[where]
 
     def __setitem__(self, where, what):
+        if not isinstance(where, awkward0.util.string) and not self._util_isstringslice(where):
+            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
         array = self.array
         array[where] = what
         if self._type is not None:
-- 
2.43.0


From 5f91fd87ba7107f7c16e1bb2074fd75389fd0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:20 +0000
Subject: [PATCH 152/158] fix: operations on lists in regular dimensions,
 stored with gaps or out of order, raised errors

---
 awkward0/array/jagged.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 31951d5..061c891 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -606,9 +606,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
                 except ValueError:
                     offsets = self.counts2offsets(self.counts.reshape(-1))
-                    thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
-                    thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._starts.shape
+                    thyself = self._tojagged(offsets[:-1].reshape(self._starts.shape), offsets[1:].reshape(self._starts.shape), copy=False)
 
                 head = head._tojagged(thyself._starts, thyself.stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
@@ -985,11 +983,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
             good = (parents >= 0)
             increase = self.numpy.arange(len(parents), dtype=self.INDEXTYPE)
-            increase[good] -= increase[starts[parents[good]]]
+            increase[good] -= increase[starts.reshape(-1)[parents[good]]]    # flatten in case multi-d jagged
             if not good.any():
                 index = self.numpy.empty(0, dtype=self.INDEXTYPE)
             else:
-                index = self._starts[parents].astype(self.INDEXTYPE)
+                index = self._starts.reshape(-1)[parents].astype(self.INDEXTYPE)
                 index += increase
                 index *= good
             out = self.copy(starts=starts, stops=stops, content=self._content[index])
@@ -1502,8 +1500,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:                                                # no underscore!
                 tmp = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
             out = tmp._tojagged(offsets[:-1], offsets[1:], copy=False)
-            out.starts.shape = self._starts.shape
-            out.stops.shape = self._starts.shape  # intentional: self._stops can too long
+            out._starts = out._starts.reshape(self._starts.shape)
+            out._stops = out._stops.reshape(self._starts.shape)  # intentional: self._stops can too long
             return out
 
     def flattentuple(self):
-- 
2.43.0


From bc34f59eb7c2cbf05bac02f84e837d6ae5e6607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 153/158] fix: reducing lists in regular dimensions failed
 after their counts had been read

---
 awkward0/array/jagged.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 061c891..54f5c33 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1600,6 +1600,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(thyself._starts.shape) > 1:
             thyself._starts = thyself._starts.reshape(-1)
             thyself._stops = thyself._stops.reshape(-1)
+            thyself._counts = None
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
-- 
2.43.0


From 6a8471e9a62434af5d1b3c7f2858a138324e6c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 154/158] fix: jagged indexes and arrays of the same shape as
 lists in regular dimensions were refused

---
 awkward0/array/jagged.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 54f5c33..699a620 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -582,8 +582,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
                     raise ValueError("jagged array used as index has a different shape {0} from the jagged array it is selecting from {1}".format(head._starts.shape, self._starts.shape))
 
-                headoffsets = self.counts2offsets(head.counts)
-                head = head._tojagged(headoffsets[:-1], headoffsets[1:], copy=False)
+                headoffsets = self.counts2offsets(head.counts.reshape(-1))    # flatten in case multi-d jagged
+                head = head._tojagged(headoffsets[:-1].reshape(head.shape), headoffsets[1:].reshape(head.shape), copy=False)
 
                 counts = head.tojagged(self.counts)._content
 
@@ -857,8 +857,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
             if self._util_isintegertype(where._content.dtype.type):
 
-                whereoffsets = self.counts2offsets(where.counts)
-                where = where._tojagged(whereoffsets[:-1], whereoffsets[1:], copy=False)
+                whereoffsets = self.counts2offsets(where.counts.reshape(-1))    # flatten in case multi-d jagged
+                where = where._tojagged(whereoffsets[:-1].reshape(where.shape), whereoffsets[1:].reshape(where.shape), copy=False)
 
                 counts = where.tojagged(self.counts)._content
 
@@ -915,11 +915,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             content = self.numpy.empty(len(self.parents), dtype=data.dtype)
             if len(data.shape) == 0 or (len(data.shape) == 1 and data.shape[0] == 1):
                 content[:] = data
-            elif len(data) != len(self._starts):
-                raise ValueError("cannot broadcast array of length {0} to match JaggedArray of length {1}".format(len(data), len(self._starts)))
+            elif data.shape[:len(self._starts.shape)] != self._starts.shape:
+                raise ValueError("cannot broadcast array of shape {0} to match JaggedArray of shape {1}".format(data.shape, self._starts.shape))
             else:
                 good = (self.parents >= 0)
-                content[good] = data[self.parents[good]]
+                content[good] = data.reshape((-1,) + data.shape[len(self._starts.shape):])[self.parents[good]]
             out = self.copy(content=content)
             out._parents = self.parents
             return out
-- 
2.43.0


From 1db7d50cc4569e3cb964f4264b30bba8034db63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:40 +0000
Subject: [PATCH 155/158] fix: tojagged gave rows that share elements the
 values of the last one

---
 awkward0/array/jagged.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 699a620..b656c16 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -830,13 +830,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-            self._content[where] = self.tojagged(what)._content
+            self._content[where] = self._fitjagged(what)._content
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            columns = [self.tojagged(y)._content for y in what]
+            columns = [self._fitjagged(y)._content for y in what]
             for x, y in zip(where, columns):
                 self._content[x] = y
 
@@ -888,6 +888,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("invalid index for assigning to JaggedArray: {0}".format(where))
 
     def tojagged(self, data):
+        if self.numpy.count_nonzero(self.parents >= 0) != self.counts.sum():
+            return self.compact()._fitjagged(data)      # some rows share elements
+        else:
+            return self._fitjagged(data)
+
+    def _fitjagged(self, data):
         data = self._util_unwrapjagged(data)
         if isinstance(data, (self.MaskedArray, self.UnionArray)) and self._util_islists(data):
             raise NotImplementedError("cannot broadcast lists in a {0} to match JaggedArray".format(type(data).__name__))
@@ -925,10 +931,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out
 
         elif isinstance(data, Iterable):
-            return self.tojagged(self.numpy.array(data))
+            return self._fitjagged(self.numpy.array(data))
 
         else:
-            return self.tojagged(self.numpy.array([data]))
+            return self._fitjagged(self.numpy.array([data]))
 
     def _tojagged(self, starts=None, stops=None, copy=True):
         if starts is None and stops is None:
-- 
2.43.0


From e711740a310605f8296bcfea828df63cd38a904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 156/158] fix: structure1d refused lists of anything but
 numbers and lists, stops longer than starts and dimensions of size zero

---
 awkward0/array/jagged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index b656c16..c258180 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1551,17 +1551,17 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             levellimit = -1
 
         out = self
-        if levellimit != 0 and isinstance(self._content, awkward0.array.base.AwkwardArray):
+        if levellimit != 0 and isinstance(self._content, JaggedArray):
             out = self.copy(content=self._content.structure1d(levellimit - 1))
 
         while len(out._starts.shape) > 1:
             last = out._starts.shape[-1]
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
-            offsets = self.numpy.arange(0, (length + 1)*last, last)
-            outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out._stops.shape[:-2] + (-1,))
+            offsets = self.numpy.arange(length + 1)*last
+            outerstarts = offsets[:-1].reshape(out._starts.shape[:-1])
+            outerstops = offsets[1:].reshape(out._starts.shape[:-1])
             innerstarts = out._starts.reshape(-1)
-            innerstops = out._stops.reshape(-1)
+            innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
 
         return out
-- 
2.43.0


From afdaf414d26d26ef3468028c4b1daa7548db76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:49 +0000
Subject: [PATCH 157/158] fix: local index of an empty array of lists in
 regular dimensions lost its shape

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c258180..8615f25 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -459,7 +459,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @property
     def localindex(self):
         if len(self) == 0:
-            return self.JaggedArray([], [], self.numpy.array([], dtype=self.INDEXTYPE))
+            return self.JaggedArray(self._starts, self._starts, self.numpy.array([], dtype=self.INDEXTYPE))
         elif self._canuseoffset():
             out = self.numpy.arange(self.offsets[0], self.offsets[-1], dtype=self.INDEXTYPE)
             out -= self.offsets[self.parents[self.parents >= 0]]
-- 
2.43.0


From 36f0cc1d80c766746fe51f2b2d71824c0bd406b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 158/158] fix: zip and pad of lists in regular dimensions
 failed when a dimension had size zero

---
 awkward0/array/jagged.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 8615f25..b77b0b6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1849,8 +1849,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 offsets = x.counts2offsets(stops - starts)
                 starts, stops = offsets[:-1], offsets[1:]
-                starts = starts.reshape((-1,) + x._starts.shape[1:])
-                stops = stops.reshape((-1,) + x._starts.shape[1:])
+                starts = starts.reshape(x._starts.shape)
+                stops = stops.reshape(x._starts.shape)
                 return x._tojagged(starts, stops, copy=False)
 
         columns1 = cls._util_unwrapjagged(columns1)
@@ -1990,8 +1990,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         index[index >= len(self._content)] = -1
         content = self._content[index]
 
-        starts = offsets[:-1].reshape((-1,) + self._starts.shape[1:])
-        stops = offsets[1:].reshape((-1,) + self._starts.shape[1:])
+        starts = offsets[:-1].reshape(self._starts.shape)
+        stops = offsets[1:].reshape(self._starts.shape)
 
         if isinstance(maskedwhen, self.numpy.ma.core.MaskedConstant):
             return self.copy(starts=starts, stops=stops, content=self.numpy.ma.MaskedArray(content, mask))
-- 
2.43.0

