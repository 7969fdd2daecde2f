From 9e6836f275f39682643e437873dc88001a1dc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 01/51] fix: combine min/max results from every chunk along the
 aggregated axis

---
 biggus/_init.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..6bd5c68 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2329,7 +2329,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
 
 class _MinStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2340,12 +2340,16 @@ class _MinStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
+        if self.result is not None:
+            # Combine with the result from the previous chunks.
+            previous = np.expand_dims(self.result, self.axis)
+            data = np.concatenate([previous, data], axis=self.axis)
         self.result = np.min(data, axis=self.axis)
 
 
 class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2356,12 +2360,19 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
+        if self.result is not None:
+            # Combine with the result from the previous chunks.
+            shape = list(data.shape)
+            shape[self.axis] = 1
+            previous = np.ma.array(self.result, dtype=data.dtype)
+            data = np.ma.concatenate([previous.reshape(shape), data],
+                                     axis=self.axis)
         self.result = np.min(data, axis=self.axis)
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2372,12 +2383,16 @@ class _MaxStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
+        if self.result is not None:
+            # Combine with the result from the previous chunks.
+            previous = np.expand_dims(self.result, self.axis)
+            data = np.concatenate([previous, data], axis=self.axis)
         self.result = np.max(data, axis=self.axis)
 
 
 class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2388,6 +2403,13 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
+        if self.result is not None:
+            # Combine with the result from the previous chunks.
+            shape = list(data.shape)
+            shape[self.axis] = 1
+            previous = np.ma.array(self.result, dtype=data.dtype)
+            data = np.ma.concatenate([previous.reshape(shape), data],
+                                     axis=self.axis)
         self.result = np.max(data, axis=self.axis)
 
 
-- 
2.43.0


From 1224352daa6ae771ca0a53f4caa544dc86841245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 02/51] fix: bootstrap std/var once when the first chunk holds
 one slice

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6bd5c68..ab84ff5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2523,7 +2523,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         super(_StdStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.k = 1
+        self.k = 0
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
@@ -2539,9 +2539,10 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.k == 0:
             self.a = data[0]
             data = data[1:]
+            self.k = 1
 
         for data_slice in data:
             self.k += 1
-- 
2.43.0


From c8d143645ee47e7a6cd5068825bc7856b26bdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 03/51] fix: masked sum of data which has no mask array

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ab84ff5..148f3a2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2447,7 +2447,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
-- 
2.43.0


From 7ee12f1f122fc050f42f9901ceb9892d0e6cb61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 04/51] fix: total and count means in types which cannot
 overflow

---
 biggus/_init.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 148f3a2..0c8a302 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2460,8 +2460,9 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         super(_MeanStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+        # Integers and booleans are totalled as floats, as NumPy does.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
@@ -2472,7 +2473,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2482,9 +2484,11 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        # Integers and booleans are totalled as floats, as NumPy does.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_count = np.zeros(shape, dtype=int)
+        self.running_masked_count = np.zeros(shape, dtype=int)
+        self.running_total = np.zeros(shape, dtype=dtype)
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
@@ -2507,7 +2511,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 240b9e3178d3dc7a289bc4c64c16d2963a02bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 05/51] fix: only share evaluation nodes which emit chunks in
 the same order

---
 biggus/_init.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0c8a302..7106d6d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -362,12 +362,37 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._grid_cache = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
+        def _chunk_grid(self, array, masked):
+            """
+            Return the slices along each dimension which define the
+            chunks that the node for the given array will emit.
+
+            """
+            grid = self._grid_cache.get(id(array), None)
+            if grid is None:
+                if hasattr(array, 'streams_handler'):
+                    grid = self._chunk_grid(array.sources[0], masked)
+                    handler = array.streams_handler(masked)
+                    if hasattr(handler, 'output_keys'):
+                        grid = handler.output_keys(grid)
+                else:
+                    grid = tuple(_all_slices_inner(array.shape,
+                                                   always_slices=True))
+                self._grid_cache[id(array)] = grid
+            return grid
+
         def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+            # Nodes can only be shared if they emit their chunks in the
+            # same order, which is determined by those dimensions that
+            # are split into more than one slice.
+            grid = self._chunk_grid(array, masked)
+            cache_key = (id(array), tuple(i for i in iteration_order
+                                          if len(grid[i]) > 1))
             node = self._node_cache.get(cache_key, None)
             if node is None:
                 if hasattr(array, 'streams_handler'):
-- 
2.43.0


From a2b27cd4e1e4ff84bace765c24899a69f124bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/51] fix: evaluate operands which are divided into different
 chunks

---
 biggus/_init.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7106d6d..01bb361 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -375,7 +375,7 @@ class AllThreadedEngine(Engine):
             """
             grid = self._grid_cache.get(id(array), None)
             if grid is None:
-                if hasattr(array, 'streams_handler'):
+                if self._is_streamed(array, masked):
                     grid = self._chunk_grid(array.sources[0], masked)
                     handler = array.streams_handler(masked)
                     if hasattr(handler, 'output_keys'):
@@ -386,6 +386,20 @@ class AllThreadedEngine(Engine):
                 self._grid_cache[id(array)] = grid
             return grid
 
+        def _is_streamed(self, array, masked):
+            """
+            Whether the given array can be computed from the chunks of
+            its sources in lock-step. If its sources are divided into
+            different chunks then it must be treated as a data-source.
+
+            """
+            result = hasattr(array, 'streams_handler')
+            if result:
+                grids = [self._chunk_grid(source, masked)
+                         for source in array.sources]
+                result = all(grid == grids[0] for grid in grids[1:])
+            return result
+
         def _make_node(self, array, iteration_order, masked):
             # Nodes can only be shared if they emit their chunks in the
             # same order, which is determined by those dimensions that
@@ -395,7 +409,7 @@ class AllThreadedEngine(Engine):
                                           if len(grid[i]) > 1))
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                if hasattr(array, 'streams_handler'):
+                if self._is_streamed(array, masked):
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
                     iteration_order = node.input_iteration_order(
-- 
2.43.0


From d16719017b53a185cb5bd2e528aa701b139f19e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 07/51] fix: index adapters further after a boolean key, and
 check its length

---
 biggus/_init.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 01bb361..e211a03 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1361,7 +1361,7 @@ class _ArrayAdapter(Array):
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
             result_key = self._cleanup_new_key(key, size, axis)
-            result_keys.append(key)
+            result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
     @property
@@ -1399,11 +1399,12 @@ class _ArrayAdapter(Array):
         elif isinstance(key, slice):
             pass
         elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
-            if key.size > size:
-                msg = 'too many boolean indices. Boolean index array ' \
-                      'of size {0} is greater than axis {1} with ' \
+            if key.shape != (size,):
+                msg = 'wrong number of boolean indices. Boolean index ' \
+                      'array of size {0} does not match axis {1} with ' \
                       'size {2}'.format(key.size, axis, size)
                 raise IndexError(msg)
+            key = tuple(np.nonzero(key)[0])
         elif isinstance(key, collections.Iterable) and \
                 not isinstance(key, six.string_types):
             # Make sure we capture the values in case we've
@@ -1438,9 +1439,9 @@ class _ArrayAdapter(Array):
         elif isinstance(new_key, np.ndarray) and \
                 new_key.dtype == np.dtype('bool'):
             # Numpy boolean indexing.
-            if new_key.size > size:
-                msg = 'too many boolean indices. Boolean index array ' \
-                      'of size {0} is greater than axis {1} with ' \
+            if new_key.shape != (size,):
+                msg = 'wrong number of boolean indices. Boolean index ' \
+                      'array of size {0} does not match axis {1} with ' \
                       'size {2}'.format(new_key.size, axis, size)
                 raise IndexError(msg)
             result_key = tuple(np.array(indices)[new_key])
-- 
2.43.0


From 0416aba2255ec56792614a6b6170e285c2eb0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 08/51] fix: negative, boolean, reversed and empty indexing of
 a LinearMosaic

---
 biggus/_init.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e211a03..201388c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -50,6 +50,18 @@ def _is_scalar(key):
     return isinstance(key, (int, np.integer))
 
 
+def _positive_index(index, axis, size):
+    """
+    Return the non-negative equivalent of an index on an axis, or raise
+    an IndexError if it is out of bounds.
+
+    """
+    if not -size <= index < size:
+        msg = 'index {0} is out of bounds for axis {1} with size {2}'
+        raise IndexError(msg.format(index, axis, size))
+    return index + size if index < 0 else index
+
+
 @export
 class AxisSupportError(Exception):
     """Raised when the operation is not supported over a given axis/axes."""
@@ -2039,12 +2051,14 @@ class LinearMosaic(Array):
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
             axis_key = keys[axis]
+            size = self.shape[axis]
             if _is_scalar(axis_key):
+                axis_key = _positive_index(axis_key, axis, size)
                 # Find the single relevant tile
                 tile_index = np.searchsorted(splits, axis_key) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_key - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2052,10 +2066,19 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
+                elif isinstance(axis_key, np.ndarray) and \
+                        axis_key.dtype == np.dtype('bool'):
+                    if axis_key.shape != (size,):
+                        msg = 'boolean index array of size {0} does not ' \
+                              'match axis {1} with size {2}'
+                        raise IndexError(msg.format(axis_key.size, axis,
+                                                    size))
+                    all_axis_indices = tuple(np.nonzero(axis_key)[0])
                 else:
-                    all_axis_indices = tuple(axis_key)
+                    all_axis_indices = tuple(
+                        _positive_index(index, axis, size)
+                        for index in axis_key)
                 tile_indices = np.searchsorted(splits, all_axis_indices) - 1
                 pairs = zip(all_axis_indices, tile_indices)
                 i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
@@ -2078,9 +2101,10 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
+                if not tiles:
+                    # Nothing is selected from any of the tiles.
+                    tile_slice[axis] = slice(0, 0)
+                    tiles.append(self._tiles[0][tuple(tile_slice)])
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 76024457d0a06e2caa023ee68b68c5078095c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 09/51] fix: take slices of broadcast tiles within a
 LinearMosaic

---
 biggus/_init.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 201388c..5d78c40 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2097,6 +2097,13 @@ class LinearMosaic(Array):
                         step = 1
                         stop = start + 1
                         tile_slice[axis] = slice(start, stop, step)
+                    elif isinstance(axis_key, slice):
+                        # Not all types of tile support more than this.
+                        step = axis_indices[1] - axis_indices[0]
+                        stop = axis_indices[-1] + step
+                        tile_slice[axis] = slice(axis_indices[0],
+                                                 stop if stop >= 0 else None,
+                                                 step)
                     else:
                         tile_slice[axis] = axis_indices
 
-- 
2.43.0


From 3fcfafde0b18422e187dbef71e058ad45a3c23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 10/51] fix: reject out of bounds indices of constant and
 broadcast arrays

---
 biggus/_init.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5d78c40..62ef5b6 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3312,14 +3312,21 @@ def _sliced_shape(shape, keys):
     for key in keys:
         shape_dim += 1
         if _is_scalar(key):
-            continue
+            _positive_index(key, shape_dim, shape[shape_dim])
         elif isinstance(key, slice):
             size = len(range(*key.indices(shape[shape_dim])))
             sliced_shape.append(size)
         elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
             # Numpy boolean indexing.
+            if key.shape != (shape[shape_dim],):
+                msg = 'boolean index array of size {0} does not match ' \
+                      'axis {1} with size {2}'
+                raise IndexError(msg.format(key.size, shape_dim,
+                                            shape[shape_dim]))
             sliced_shape.append(builtins.sum(key))
         elif isinstance(key, (tuple, np.ndarray)):
+            for index in key:
+                _positive_index(index, shape_dim, shape[shape_dim])
             sliced_shape.append(len(key))
         elif key is np.newaxis:
             shape_dim -= 1
-- 
2.43.0


From 523c256be4cc2e878e9209d95c2c302a9e4e150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 11/51] fix: evaluate operations with a Python number in the
 declared dtype

---
 biggus/_init.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 62ef5b6..df78fdd 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3073,10 +3073,6 @@ class _Elementwise(ComputedArray):
             # Dual input elementwise
             array2 = ensure_array(array2)
 
-            # Broadcast both arrays to the full broadcast shape.
-            # TypeError will be raised if not broadcastable.
-            array1, array2 = BroadcastArray.broadcast_arrays(array1, array2)
-
             # Explicitly check the type, using is, not isinstance;
             # this is to trap the case where a Python int of float is provided,
             # rather than a numpy int or float.  The type promotion is handled
@@ -3090,8 +3086,26 @@ class _Elementwise(ComputedArray):
             # dtypes and the operation. Avoid using np.find_common_dtype(),
             # here, as integer division yields a float, whereas standard type
             # coercion rules with find_common_dtype yields an integer.
-            dtype = numpy_op(np.ones(1, dtype=array1.dtype),
-                             second_array).dtype
+            first_array = np.ones(1, dtype=array1.dtype)
+            dtype = numpy_op(first_array, second_array).dtype
+
+            if second_array is initial_array2:
+                # The scalar will be evaluated as an array, so give it a
+                # type for which NumPy has the same result.
+                for scalar_dtype in (np.result_type(first_array, second_array),
+                                     array2.dtype, dtype):
+                    try:
+                        trial = numpy_op(first_array,
+                                         np.ones(1, dtype=scalar_dtype))
+                    except TypeError:
+                        continue
+                    if trial.dtype == dtype:
+                        array2 = ConstantArray([], second_array, scalar_dtype)
+                        break
+
+            # Broadcast both arrays to the full broadcast shape.
+            # TypeError will be raised if not broadcastable.
+            array1, array2 = BroadcastArray.broadcast_arrays(array1, array2)
 
         self._dtype = dtype
         self._array1 = array1
-- 
2.43.0


From 77c2aeec976d9791ea225c89081edfef93b9d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 12/51] fix: dtype, mask and fill value of 0-dimensional
 adapter results

---
 biggus/_init.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index df78fdd..471a44c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1522,23 +1522,28 @@ class _ArrayAdapter(Array):
     def _apply_keys(self):
         pass
 
-    def ndarray(self):
+    def _concrete_array(self):
         array = self._apply_keys()
-        # We want the shape of the result to match the shape of the
+        # We want the shape and type of the result to match those of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0:
-            array = np.array(array)
+        if array is ma.masked:
+            array = ma.masked_all((), dtype=self.dtype)
+            array.fill_value = self.fill_value
+        elif array.ndim == 0 and not ma.isMaskedArray(array):
+            array = np.array(array, dtype=self.dtype)
+        return array
+
+    def ndarray(self):
+        array = self._concrete_array()
         if ma.isMaskedArray(array):
-            array = array.filled()
+            # NB. Filling a 0-dimensional array can give an array-scalar.
+            array = np.asarray(array.filled(), dtype=array.dtype)
         return array
 
     def masked_array(self):
-        array = self._apply_keys()
-        # We want the shape of the result to match the shape of the
-        # Array, so where we've ended up with an array-scalar,
-        # "inflate" it back to a 0-dimensional array.
-        if array.ndim == 0 or not ma.isMaskedArray(array):
+        array = self._concrete_array()
+        if not ma.isMaskedArray(array):
             array = ma.MaskedArray(array, fill_value=self.fill_value)
         return array
 
-- 
2.43.0


From e70479056b21a63ba7f33fa12b989a60414070fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 13/51] fix: orthogonal and empty indexing of the stack
 dimensions of an ArrayStack

---
 biggus/_init.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 471a44c..ed709d9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1859,10 +1859,19 @@ class ArrayStack(Array):
         item_keys = keys[stack_ndim:]
 
         stack_shape = _sliced_shape(self._stack.shape, stack_keys)
-        if stack_shape:
-            stack = self._stack[stack_keys]
-            # If the result was 0D, convert it back to an array.
-            stack = np.array(stack)
+        if 0 in stack_shape:
+            # There are no items left to be stacked.
+            item_shape = _sliced_shape(self._item_shape, item_keys)
+            result = ConstantArray(stack_shape + item_shape, dtype=self.dtype)
+        elif stack_shape:
+            # Apply the keys one at a time, starting from the last, so
+            # that they are independent of each other.
+            stack = self._stack.copy()
+            for axis in reversed(range(stack_ndim)):
+                key = stack_keys[axis]
+                if isinstance(key, tuple):
+                    key = list(key)
+                stack = stack[(slice(None),) * axis + (key,)]
             for index in np.ndindex(stack_shape):
                 item = stack[index]
                 stack[index] = item[item_keys]
-- 
2.43.0


From a24db1f720e12cc5d84e218719d379e9b103b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 14/51] fix: axis of a resized new axis which follows an
 integer key

---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ed709d9..02534cb 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -856,6 +856,10 @@ class NewAxesArray(ArrayContainer):
         broadcast_dict = {}
 
         for key_index, key in enumerate(keys):
+            # The axis that this key corresponds to in the result.
+            result_axis = builtins.sum(not _is_scalar(previous_key)
+                                       for previous_key in keys[:key_index])
+
             if key is np.newaxis:
                 new_axes[existing_array_axis] += 1
                 continue
@@ -872,14 +876,14 @@ class NewAxesArray(ArrayContainer):
                 elif isinstance(key, slice):
                     new_size = len(range(*key.indices(1)))
                     if new_size != 1:
-                        broadcast_dict[key_index] = new_size
+                        broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
                         if not -1 <= index < 1:
                             raise IndexError('index {} is out of bounds for '
                                              'axis {} with size 1'
                                              ''.format(key, key_index))
-                    broadcast_dict[key_index] = len(key)
+                    broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
                                               'supported for {} keys.'
-- 
2.43.0


From 239f40ed86a6964a779f702ac9432c4f058b074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 15/51] fix: broadcast and index arrays with empty leading
 dimensions

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 02534cb..887254f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -953,8 +953,9 @@ class BroadcastArray(ArrayContainer):
         # Compute the broadcast shape.
         shape = self._shape_from_broadcast_dict(self.array.shape, broadcast)
         for length in leading_shape:
-            if length < 1:
-                raise ValueError('Leading shape must all be >=1.')
+            if length < 0:
+                raise ValueError('Leading shape must all be >=1, or 0 for an '
+                                 'empty array.')
         self._leading_shape = tuple(leading_shape)
         self._broadcast_shape = tuple(shape)
         self._shape = self._leading_shape + self._broadcast_shape
-- 
2.43.0


From f49fd41c280e8cba513203c75361d76fce325b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 16/51] fix: axes of operands that have already been broadcast

---
 biggus/_init.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 887254f..29ce8d0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1017,7 +1017,29 @@ class BroadcastArray(ArrayContainer):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-        return type(self)(sub_array, new_broadcast_dict, leading_shape)
+        return self._broadcast(sub_array, new_broadcast_dict, leading_shape)
+
+    @classmethod
+    def _broadcast(cls, array, broadcast, leading_shape):
+        """
+        Broadcast an array which may have already been broadcast, where
+        the axes to broadcast are those of the array as it is now (as
+        opposed to those it had before it was first broadcast).
+
+        """
+        if isinstance(array, BroadcastArray):
+            n_leading = len(array._leading_shape)
+            existing_leading_shape = list(array._leading_shape)
+            new_broadcast = array._broadcast_dict.copy()
+            for axis, length in broadcast.items():
+                if axis < n_leading:
+                    existing_leading_shape[axis] = length
+                else:
+                    new_broadcast[axis - n_leading] = length
+            leading_shape = tuple(leading_shape) + tuple(
+                existing_leading_shape)
+            array, broadcast = array.array, new_broadcast
+        return cls(array, broadcast, leading_shape)
 
     @classmethod
     def broadcast_arrays(cls, array1, array2):
@@ -1036,10 +1058,10 @@ class BroadcastArray(ArrayContainer):
         shape, bcast_kwargs1, bcast_kwargs2 = (
             cls._compute_broadcast_kwargs(array1.shape, array2.shape))
         if any(bcast_kwargs1.values()):
-            array1 = cls(array1, **bcast_kwargs1)
+            array1 = cls._broadcast(array1, **bcast_kwargs1)
 
         if any(bcast_kwargs2.values()):
-            array2 = cls(array2, **bcast_kwargs2)
+            array2 = cls._broadcast(array2, **bcast_kwargs2)
 
         return array1, array2
 
-- 
2.43.0


From 89990a05d506e84b56e49831a25737f9bbe6ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 17/51] fix: keep the intermediate conversion of a repeated
 astype

---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 29ce8d0..cdfed80 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1217,9 +1217,6 @@ class AsDataTypeArray(ArrayContainer):
     def dtype(self):
         return self._dtype
 
-    def astype(self, dtype):
-        return type(self)(self.array, dtype)
-
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
         # re-apply the astype.
-- 
2.43.0


From 4f237113b5240c090005da7f2372c8434ff8c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 18/51] fix: nbytes of very large arrays

---
 biggus/_init.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cdfed80..0fc74ec 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -537,7 +537,11 @@ class Array(six.with_metaclass(ABCMeta, object)):
     @property
     def nbytes(self):
         """The total number of bytes required to store the array data."""
-        return int(np.product(self.shape) * self.dtype.itemsize)
+        # NB. NumPy's fixed size integers could overflow.
+        nbytes = int(self.dtype.itemsize)
+        for length in np.ravel(self.shape).tolist():
+            nbytes *= int(length)
+        return nbytes
 
     @property
     def ndim(self):
-- 
2.43.0


From c52327dbc55a5e49d09218026c3cd77d837669c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 19/51] fix: 0-dimensional results of elementwise operations

---
 biggus/_init.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0fc74ec..6229411 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3182,7 +3182,8 @@ class _Elementwise(ComputedArray):
 
     def ndarray(self):
         np_operands = ndarrays(self.sources)
-        result = self._numpy_op(*np_operands)
+        # NB. NumPy gives an array-scalar for 0-dimensional operands.
+        result = np.asarray(self._numpy_op(*np_operands))
         return result
 
     def masked_array(self):
@@ -3191,6 +3192,11 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
+        # NB. NumPy gives an array-scalar for 0-dimensional operands.
+        if result is ma.masked:
+            result = ma.masked_all((), dtype=self.dtype)
+        else:
+            result = ma.asarray(result)
         return result
 
     def streams_handler(self, masked):
-- 
2.43.0


From adbc47d8d7264cdec7597011ff1ef4da77a9bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 20/51] fix: index the other axes of a broadcast array with
 NumPy arrays

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6229411..5310a51 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1017,7 +1017,8 @@ class BroadcastArray(ArrayContainer):
                                               'implemented.'
                                               ''.format(type(key)))
         # Try to avoid a copy of self.array if we can.
-        if all(key == slice(None) for key in array_keys):
+        if all(isinstance(key, slice) and key == slice(None)
+               for key in array_keys):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-- 
2.43.0


From 7696c110b3f337310a51df13deaec4ab6b739341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 21/51] fix: NumPy adapter keys which mix integers, slices and
 a tuple

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5310a51..c11e77d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1597,7 +1597,8 @@ class NumpyArrayAdapter(_ArrayAdapter):
         keys = self._keys
         tuple_keys = [(i, key) for i, key in enumerate(keys)
                       if isinstance(key, tuple)]
-        if len(tuple_keys) > 1:
+        any_scalar_keys = any(map(_is_scalar, keys))
+        if len(tuple_keys) > 1 or (tuple_keys and any_scalar_keys):
             # Since we're potentially dealing with very large datasets
             # we want to cut down the array as much as possible in the
             # first iteration.
-- 
2.43.0


From 57b4faf856841c1d8dff280a7aa3e1eb8c31941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 22/51] fix: 0-dimensional results of arrays with new axes

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index c11e77d..0d6b910 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -913,11 +913,13 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        # NB. Without an Ellipsis NumPy gives an array-scalar if there are no
+        # dimensions.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
 
 @export
-- 
2.43.0


From 39b893dc208d2bbd983583e81fd03fc6eb220ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 23/51] fix: masked mean of wholly masked 1-dimensional data
 with an mdtol

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0d6b910..6f90132 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2620,7 +2620,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
             mask_update = np.true_divide(self.running_masked_count,
                                          self.running_masked_count +
                                          self.running_count) > self._mdtol
-            array.mask |= mask_update
+            # NB. This may be numpy.ma.masked, which must not be modified.
+            array = np.ma.array(array, mask=mask_update, copy=True)
 
         chunk = Chunk(self.current_keys, array)
         return chunk
-- 
2.43.0


From 499769e3064ae0df73592bc20e186faddc0b7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 24/51] fix: masked sum of the results of a count

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6f90132..1ed76a9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2565,7 +2565,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def process_data(self, data):
         self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
-        self.running_total += np.sum(data.filled(0), axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
 
 
 class _MeanStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 3676d092e7507869f5cf60bd254e763e9b052081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 25/51] fix: release the nodes which feed a node that has
 failed

---
 biggus/_init.py | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 1ed76a9..37b5877 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -105,6 +105,31 @@ QUEUE_FINISHED = None
 QUEUE_ABORT = Exception
 
 
+class _ChunkQueue(queue.Queue, object):
+    """
+    A limited-size queue which can be closed by its consumer.
+
+    Once it has been closed any items are discarded, so that a node never
+    waits to output a Chunk to a node which has stopped.
+
+    """
+    closed = False
+
+    def close(self):
+        with self.mutex:
+            self.closed = True
+            self.queue.clear()
+            self.not_full.notify_all()
+
+    def put(self, item):
+        with self.not_full:
+            while not self.closed and self._qsize() >= self.maxsize:
+                self.not_full.wait()
+            if not self.closed:
+                self._put(item)
+                self.not_empty.notify()
+
+
 class Node(six.with_metaclass(ABCMeta, object)):
     """A node of an expression evaluation graph."""
 
@@ -135,6 +160,11 @@ class Node(six.with_metaclass(ABCMeta, object)):
             for queue in self.output_queues:
                 queue.put(chunk)
 
+    def is_wanted(self):
+        """Whether there is anything left to receive the output Chunks."""
+        return not (self.output_queues and
+                    all(queue.closed for queue in self.output_queues))
+
     @abstractmethod
     def run(self):
         pass
@@ -197,6 +227,8 @@ class ProducerNode(Node):
             chunk_index = self.chunk_index_gen(self.array.shape,
                                                self.iteration_order)
             for key in chunk_index:
+                if not self.is_wanted():
+                    return
                 # Now we have the slices that describe the next chunk.
                 # For example, key might be equivalent to
                 # `[11:12, 0:3, :, :]`.
@@ -239,7 +271,7 @@ class ConsumerNode(Node):
         registers each queue as an output of its corresponding node.
 
         """
-        self.input_queues = [queue.Queue(maxsize=3) for _ in input_nodes]
+        self.input_queues = [_ChunkQueue(maxsize=3) for _ in input_nodes]
         for input_node, input_queue in zip(input_nodes, self.input_queues):
             input_node.add_output_queue(input_queue)
 
@@ -271,8 +303,8 @@ class ConsumerNode(Node):
         try:
             while True:
                 input_chunks = [input.get() for input in self.input_queues]
-                for input in self.input_queues:
-                    input.task_done()
+                if not self.is_wanted():
+                    return
                 if any(chunk is QUEUE_ABORT for chunk in input_chunks):
                     self.abort()
                     return
@@ -288,6 +320,10 @@ class ConsumerNode(Node):
         else:
             for queue in self.output_queues:
                 queue.put(QUEUE_FINISHED)
+        finally:
+            # Release any nodes which are waiting to give us more input.
+            for queue in self.input_queues:
+                queue.close()
 
 
 class StreamsHandlerNode(ConsumerNode):
-- 
2.43.0


From fec5adba7e5715c55ab4e9efae38d41156069ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 26/51] fix: only start threads once the whole evaluation graph
 exists

---
 biggus/_init.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 37b5877..0d4c48e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -488,16 +488,16 @@ class AllThreadedEngine(Engine):
             """
             # Construct nodes starting from the producers.
             result_nodes = []
-            result_threads = []
             for array in self.arrays:
                 iteration_order = list(range(array.ndim))
                 node = self._make_node(array, iteration_order, masked)
                 result_node = NdarrayNode(array, masked)
                 result_node.add_input_nodes([node])
-                result_threads.append(result_node.thread())
                 result_nodes.append(result_node)
 
-            # Start up all the producer/computation threads.
+            # Start up all the result/producer/computation threads, now that
+            # there are nodes for all of the arrays.
+            result_threads = [node.thread() for node in result_nodes]
             for node in six.itervalues(self._node_cache):
                 node.thread()
 
-- 
2.43.0


From e573653d57d476bc151aa0784d80cfc06f6468da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 27/51] fix: fill value of NumPy data indexed by several tuples

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0d4c48e..11854ac 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1664,7 +1664,8 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
-                array = np.take(array, key, axis=dimensions[i])
+                # NB. numpy.take() would lose the fill value.
+                array = array[(slice(None),) * dimensions[i] + (key,)]
         else:
             array = self.concrete.__getitem__(keys)
         return array
-- 
2.43.0


From ad49e8b1561db2c2a1c8ea1547a005a9e7134061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 28/51] fix: check the axes of a transpose, and allow negative
 ones

---
 biggus/_init.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 11854ac..50c7029 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1751,6 +1751,11 @@ class TransposedArray(ArrayContainer):
             axes = np.arange(array.ndim)[::-1]
         elif len(axes) != array.ndim:
             raise ValueError('Incorrect number of dimensions.')
+        elif any(axis < 0 for axis in axes):
+            axes = [axis + array.ndim if axis < 0 else axis for axis in axes]
+        if sorted(axes) != list(range(array.ndim)):
+            raise ValueError('The axes are not a permutation of the '
+                             'dimensions.')
         self.axes = axes
         self._forward_axes_map = {src: dest for dest, src in enumerate(axes)}
         self._inverse_axes_map = {dest: src for dest, src in enumerate(axes)}
-- 
2.43.0


From a95081bdce1dcf4c7b7cbd1ae4067e99ad24f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 29/51] fix: check the limits of slices and the items of index
 sequences

---
 biggus/_init.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 50c7029..73ca37a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1476,7 +1476,8 @@ class _ArrayAdapter(Array):
                       ' size {2}'.format(key, axis, size)
                 raise IndexError(msg)
         elif isinstance(key, slice):
-            pass
+            # Raise an exception for limits which aren't integers.
+            key.indices(size)
         elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
             if key.shape != (size,):
                 msg = 'wrong number of boolean indices. Boolean index ' \
@@ -1490,6 +1491,8 @@ class _ArrayAdapter(Array):
             # been given a one-shot iterable, like a generator.
             key = tuple(key)
             for sub_key in key:
+                if not _is_scalar(sub_key):
+                    raise TypeError('invalid index {!r}'.format(sub_key))
                 if sub_key >= size or sub_key < -size:
                     msg = 'index {0} is out of bounds for axis {1}' \
                           ' with size {2}'.format(sub_key, axis, size)
-- 
2.43.0


From 0a9e0f42c9969a03a1765409b5e00d4d47dd7bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 30/51] fix: combine differing chunks of the operands in the
 dask engine

---
 biggus/experimental/dask_engine.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index dcc0f1b..f47b9c5 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -216,8 +216,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
             t_keys = tuple(slice(*slice_tuple) for slice_tuple in slice_group)
 
             all_chunks = []
-            for source_keys, source_chunks_by_key in zip(sources_keys_group,
-                                                         sources_chunks):
+            for input_array, source_keys, source_chunks_by_key in zip(
+                    array.sources, sources_keys_group, sources_chunks):
                 dependencies = tuple(
                         the_id
                         for keys in source_keys
@@ -237,10 +237,11 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Fix slice equality to deal with 0 and None etc.
                 if not all(t_keys == normalize_keys(keys, array.shape)
                            for keys in source_keys):
-                    combined = self.collect(array[t_keys], masked, chunk=True)
+                    combined = self.collect(input_array[t_keys], masked,
+                                            chunk_keys=t_keys)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
-                              ''.format(array[t_keys].shape, uuid.uuid()))
+                              ''.format(array[t_keys].shape, uuid.uuid4()))
                     dsk_graph[new_id] = new_task
                     dependencies = (new_id, )
 
@@ -351,7 +352,9 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
         return nodes
 
     @staticmethod
-    def collect(array, masked, chunk=False, name=None):
+    def collect(array, masked, chunk_keys=None, name=None):
+        # If chunk_keys are given then the array is the corresponding part
+        # of a larger one, to which the keys of the chunks refer.
         def gather(*all_chunks):
             # We make the NdarrayNode inside the calling function as it is this
             # that ultimately we want. TODO: Turn this into a biggus.Array
@@ -361,13 +364,22 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Factor it so that this isn't necessary...
                 if isinstance(chunks, biggus._init.Chunk):
                     chunks = [chunks]
+                if chunk_keys is not None:
+                    chunks = [offset_chunk(chunk) for chunk in chunks]
                 result_node.process_chunks(chunks)
             result_array = result_node.result
-            if chunk:
-                return biggus._init.Chunk(tuple(slice(None)
-                                                for _ in result_array.shape),
-                                          result_array)
+            if chunk_keys is not None:
+                return biggus._init.Chunk(chunk_keys, result_array)
             return result_array
+
+        def offset_chunk(chunk):
+            keys = []
+            for key, chunk_key, length in zip(chunk.keys, chunk_keys,
+                                              chunk.data.shape):
+                start = (key.start or 0) - (chunk_key.start or 0)
+                keys.append(slice(start, start + length))
+            return biggus._init.Chunk(tuple(keys), chunk.data)
+
         if name:
             gather.__name__ = name
         return gather
-- 
2.43.0


From f815df23ccb4d7e44e56493c3547b97fe7a8d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 31/51] fix: 0-dimensional masked intermediate results of
 elementwise operations

---
 biggus/_init.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 73ca37a..57eb8e3 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3108,9 +3108,10 @@ def var(a, axis=None, ddof=0):
 
 
 class _ElementwiseStreamsHandler(_StreamsHandler):
-    def __init__(self, sources, operator):
+    def __init__(self, sources, operator, dtype):
         self.sources = sources
         self.operator = operator
+        self.dtype = dtype
 
     def finalise(self):
         pass
@@ -3120,6 +3121,12 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
 
     def process_chunks(self, chunks):
         array = self.operator(*[chunk.data for chunk in chunks])
+        # NB. NumPy gives array-scalars for 0-dimensional operands, and
+        # the masked constant, whatever the dtype, if they are masked.
+        if array is ma.masked:
+            array = ma.masked_all((), dtype=self.dtype)
+        else:
+            array = np.asanyarray(array)
         chunk = Chunk(chunks[0].keys, array)
         return chunk
 
@@ -3257,7 +3264,7 @@ class _Elementwise(ComputedArray):
             operator = self._ma_op
         else:
             operator = self._numpy_op
-        return _ElementwiseStreamsHandler(self.sources, operator)
+        return _ElementwiseStreamsHandler(self.sources, operator, self.dtype)
 
 
 def _unary_fn_wrapper(name, function_to_wrap, masked_equivalent=None,
-- 
2.43.0


From f07ad704fc28ebe26b6ff4dc3ba0c36dda4de683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 32/51] fix: refuse booleans as indices, instead of selecting
 other than was declared

---
 biggus/_init.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 57eb8e3..ec5de8c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3473,6 +3473,13 @@ def _full_keys(keys, ndim):
     # Make keys mutable, and take a copy.
     keys = list(keys)
 
+    # NB. Booleans are also integers, but selecting with them must not be
+    # mistaken for indexing. Only a NumPy array can be a boolean mask.
+    for key in keys:
+        for index in key if isinstance(key, (tuple, list)) else (key,):
+            if isinstance(index, (bool, np.bool_)):
+                raise TypeError('invalid index: {!r}'.format(key))
+
     # Count the number of keys which actually slice a dimension.
     n_keys_non_newaxis = len([key for key in keys if key is not np.newaxis])
 
-- 
2.43.0


From 43fd1eebb344aa2f8dd562d3f0adc1fbbe317ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 33/51] fix: accept unsigned NumPy integers as indices of a
 LinearMosaic

---
 biggus/_init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index ec5de8c..cb4743a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -23,6 +23,7 @@ from six.moves import builtins
 import collections
 import functools
 import itertools
+import operator
 import threading
 from six.moves import queue
 import warnings
@@ -56,6 +57,8 @@ def _positive_index(index, axis, size):
     an IndexError if it is out of bounds.
 
     """
+    # NB. NumPy's arithmetic with unsigned integers can give floats.
+    index = operator.index(index)
     if not -size <= index < size:
         msg = 'index {0} is out of bounds for axis {1} with size {2}'
         raise IndexError(msg.format(index, axis, size))
-- 
2.43.0


From 02f611d9217bfd2d70ded384fb908ad5f869af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 34/51] fix: empty selections of a stack of data with no value
 for 0.0

The elements of an empty selection of, for example, dates were taken from
a ConstantArray with the default value, which cannot be converted.
---
 biggus/_init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cb4743a..b8be2fc 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1942,7 +1942,9 @@ class ArrayStack(Array):
         if 0 in stack_shape:
             # There are no items left to be stacked.
             item_shape = _sliced_shape(self._item_shape, item_keys)
-            result = ConstantArray(stack_shape + item_shape, dtype=self.dtype)
+            # NB. Not all types of data have a value for 0.0.
+            zero = np.zeros(1, dtype=self.dtype)[0]
+            result = ConstantArray(stack_shape + item_shape, zero, self.dtype)
         elif stack_shape:
             # Apply the keys one at a time, starting from the last, so
             # that they are independent of each other.
-- 
2.43.0


From f04bcb94f49fb7d5279ac8460a44fb01bd932804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 35/51] fix: lists were only accepted as keys by some types of
 Array

Selecting with a list from, for example, a ConstantArray or ArrayStack
raised a ValueError, although a list slices along its dimension in the
same way as a tuple or 1-d array.
---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b8be2fc..e7847bf 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3476,7 +3476,8 @@ def _full_keys(keys, ndim):
         keys = (keys,)
 
     # Make keys mutable, and take a copy.
-    keys = list(keys)
+    # NB. A list selects in the same way as a tuple, or 1-d array.
+    keys = [tuple(key) if isinstance(key, list) else key for key in keys]
 
     # NB. Booleans are also integers, but selecting with them must not be
     # mistaken for indexing. Only a NumPy array can be a boolean mask.
-- 
2.43.0


From 1d6af0195371db9bb8a9fe27e9c2bd24c24b376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:30 +0000
Subject: [PATCH 36/51] fix: the type of masked zero-dimensional shifts

---
 biggus/_init.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e7847bf..cb6b9f7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3127,8 +3127,9 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
     def process_chunks(self, chunks):
         array = self.operator(*[chunk.data for chunk in chunks])
         # NB. NumPy gives array-scalars for 0-dimensional operands, and
-        # the masked constant, whatever the dtype, if they are masked.
-        if array is ma.masked:
+        # the masked constant (or a copy of it), whatever the dtype, if
+        # they are masked.
+        if array.ndim == 0 and ma.getmask(array):
             array = ma.masked_all((), dtype=self.dtype)
         else:
             array = np.asanyarray(array)
@@ -3254,8 +3255,10 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
-        # NB. NumPy gives an array-scalar for 0-dimensional operands.
-        if result is ma.masked:
+        # NB. NumPy gives an array-scalar for 0-dimensional operands, and
+        # the masked constant (or a copy of it), whatever the dtype, if
+        # they are masked.
+        if self.ndim == 0 and ma.getmask(result):
             result = ma.masked_all((), dtype=self.dtype)
         else:
             result = ma.asarray(result)
-- 
2.43.0


From fa5dcdac72cf7b2b44b7bc9931470def9ce9d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 37/51] fix: any number of keys can be grouped

---
 biggus/experimental/key_grouper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/experimental/key_grouper.py b/biggus/experimental/key_grouper.py
index 5b4e299..4600eff 100644
--- a/biggus/experimental/key_grouper.py
+++ b/biggus/experimental/key_grouper.py
@@ -110,9 +110,9 @@ def dimension_group_to_lowest_common(dim_length, dim_keys):
                              for stop, index in zip(current_stops,
                                                     current_index)]
 
-        # Prevent an infinite loop.
+        # Prevent an infinite loop. Each iteration uses up at least one key.
         i += 1
-        if i > 9999:
+        if i > sum(lengths):
             # This should never happen, but it may be possible with some inputs
             # (unverified).
             raise RuntimeError('The algorithm failed to find key groups.')
-- 
2.43.0


From b5a7bdd7a09372b5075c1ece645a316f1439d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 38/51] fix: no degrees of freedom left in a masked std or var

---
 biggus/_init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cb6b9f7..67dd8ae 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2754,7 +2754,9 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         self.current_shape = processed_chunk_shape
 
     def finalise(self):
-        mask = self.running_count == 0
+        # Without degrees of freedom there's no result.
+        mask = ((self.running_count == 0) |
+                (self.running_count <= self.ddof))
         denominator = ma.array(self.running_count, mask=mask) - self.ddof
         q = ma.array(self.q, mask=mask) / denominator
         array = ma.sqrt(q)
-- 
2.43.0


From f94d9f94341c16494ff12fdc564b5f4fcd42e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:19 +0000
Subject: [PATCH 39/51] fix: booleans were accepted as the keys with which a
 data source is wrapped

---
 biggus/_init.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 67dd8ae..eddbcc0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1473,7 +1473,10 @@ class _ArrayAdapter(Array):
         Raises IndexError/TypeError for invalid keys.
 
         """
-        if _is_scalar(key):
+        if isinstance(key, (bool, np.bool_)):
+            # NB. Booleans are also integers.
+            raise TypeError('invalid key {!r}'.format(key))
+        elif _is_scalar(key):
             if key >= size or key < -size:
                 msg = 'index {0} is out of bounds for axis {1} with' \
                       ' size {2}'.format(key, axis, size)
@@ -1494,7 +1497,7 @@ class _ArrayAdapter(Array):
             # been given a one-shot iterable, like a generator.
             key = tuple(key)
             for sub_key in key:
-                if not _is_scalar(sub_key):
+                if not _is_scalar(sub_key) or isinstance(sub_key, bool):
                     raise TypeError('invalid index {!r}'.format(sub_key))
                 if sub_key >= size or sub_key < -size:
                     msg = 'index {0} is out of bounds for axis {1}' \
-- 
2.43.0


From 12ad9f415bab642549bacc8353c73a4528d4164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:20 +0000
Subject: [PATCH 40/51] fix: changing the axes, the broadcast dict or the stack
 given changed an array made with them

---
 biggus/_init.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index eddbcc0..3475188 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -21,6 +21,7 @@ import six
 from abc import ABCMeta, abstractproperty, abstractmethod
 from six.moves import builtins
 import collections
+import copy
 import functools
 import itertools
 import operator
@@ -993,7 +994,8 @@ class BroadcastArray(ArrayContainer):
             broadcast = new_broadcast_dict
 
         super(BroadcastArray, self).__init__(array)
-        self._broadcast_dict = broadcast
+        # NB. The dict we've been given might be changed later on.
+        self._broadcast_dict = dict(broadcast)
 
         # Compute the broadcast shape.
         shape = self._shape_from_broadcast_dict(self.array.shape, broadcast)
@@ -1762,6 +1764,9 @@ class TransposedArray(ArrayContainer):
             raise ValueError('Incorrect number of dimensions.')
         elif any(axis < 0 for axis in axes):
             axes = [axis + array.ndim if axis < 0 else axis for axis in axes]
+        else:
+            # NB. The list we've been given might be changed later on.
+            axes = copy.copy(axes)
         if sorted(axes) != list(range(array.ndim)):
             raise ValueError('The axes are not a permutation of the '
                              'dimensions.')
@@ -1868,7 +1873,8 @@ class ArrayStack(Array):
 
     """
     def __init__(self, stack):
-        stack = np.require(stack, dtype='O')
+        # NB. The array we've been given might be changed later on.
+        stack = np.require(stack, dtype='O').copy()
         first_array = stack.flat[0]
         item_shape = first_array.shape
         dtype = first_array.dtype
-- 
2.43.0


From ead6f4a6ddb16d1719f92b0060f9e725ae40578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:20 +0000
Subject: [PATCH 41/51] fix: an iterator given as leading shape was used up

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3475188..f6c37db 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -993,6 +993,7 @@ class BroadcastArray(ArrayContainer):
             new_broadcast_dict.update(broadcast)
             broadcast = new_broadcast_dict
 
+        leading_shape = tuple(leading_shape)
         super(BroadcastArray, self).__init__(array)
         # NB. The dict we've been given might be changed later on.
         self._broadcast_dict = dict(broadcast)
@@ -1003,7 +1004,7 @@ class BroadcastArray(ArrayContainer):
             if length < 0:
                 raise ValueError('Leading shape must all be >=1, or 0 for an '
                                  'empty array.')
-        self._leading_shape = tuple(leading_shape)
+        self._leading_shape = leading_shape
         self._broadcast_shape = tuple(shape)
         self._shape = self._leading_shape + self._broadcast_shape
 
-- 
2.43.0


From 9e3ac425a73e96cae293bcdd55e95c2b1730c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:19 +0000
Subject: [PATCH 42/51] fix: means and deviations of half-precision values
 overflowed

---
 biggus/_init.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f6c37db..4f73c40 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2628,6 +2628,18 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
 
 
+def _mean_dtypes(array):
+    """
+    Return the data type of a mean or deviation of the given array, and
+    the data type with which to compute it.
+
+    """
+    # Integers and booleans are totalled as floats, as NumPy does.
+    dtype = (np.zeros(1, dtype=array.dtype) / 1.).dtype
+    # Half-precision values soon overflow, and lose their precision.
+    return dtype, np.promote_types(dtype, np.float32)
+
+
 class _MeanStreamsHandler(_AggregationStreamsHandler):
     nice_name = 'mean'
 
@@ -2637,12 +2649,12 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         super(_MeanStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        # Integers and booleans are totalled as floats, as NumPy does.
-        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self._dtype, dtype = _mean_dtypes(self.array)
         self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
+        array = array.astype(self._dtype)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.array(array)
@@ -2661,8 +2673,7 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        # Integers and booleans are totalled as floats, as NumPy does.
-        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        _, dtype = _mean_dtypes(self.array)
         self.running_count = np.zeros(shape, dtype=int)
         self.running_masked_count = np.zeros(shape, dtype=int)
         self.running_total = np.zeros(shape, dtype=dtype)
@@ -2707,12 +2718,12 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         self.k = 0
-        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self._result_dtype, self._dtype = _mean_dtypes(self.array)
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
     def finalise(self):
         self.q /= (self.k - self.ddof)
-        array = np.sqrt(self.q)
+        array = np.sqrt(self.q).astype(self._result_dtype)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.array(array)
@@ -2756,11 +2767,11 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         del self.target_shape[self.axis]
 
     def bootstrap(self, processed_chunk_shape):
-        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self._dtype, dtype = _mean_dtypes(self.array)
         self.a = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.q = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.running_count = np.zeros(processed_chunk_shape,
-                                      dtype=dtype).flatten()
+                                      dtype=float).flatten()
         self.current_shape = processed_chunk_shape
 
     def finalise(self):
@@ -2769,7 +2780,7 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
                 (self.running_count <= self.ddof))
         denominator = ma.array(self.running_count, mask=mask) - self.ddof
         q = ma.array(self.q, mask=mask) / denominator
-        array = ma.sqrt(q)
+        array = ma.sqrt(q).astype(self._dtype)
         array.shape = self.current_shape
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
-- 
2.43.0


From 127998ff91759186a1e366f03712a48a001393dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:25 +0000
Subject: [PATCH 43/51] fix: a piece of another shape or type could be assigned
 into a stack

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 4f73c40..549b3fe 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1977,6 +1977,8 @@ class ArrayStack(Array):
         for key in keys:
             assert _is_scalar(key)
         assert isinstance(value, Array), type(value)
+        if value.shape != self._item_shape or value.dtype != self._dtype:
+            raise ValueError('invalid sub-array')
         self._stack[keys] = value
 
     def ndarray(self):
-- 
2.43.0


From e7c131677c94c2fd614ba564db707ade89806be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:20 +0000
Subject: [PATCH 44/51] fix: constant arrays of negative lengths were accepted

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 549b3fe..a12eaf9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1358,6 +1358,8 @@ class ConstantArray(Array):
             except TypeError:
                 shape = (shape,)
         self._shape = tuple(map(int, shape))
+        if any(length < 0 for length in self._shape):
+            raise ValueError('negative dimensions are not allowed')
         data = np.array([value], dtype=dtype)
         self.value = data[0]
         self._dtype = data.dtype
-- 
2.43.0


From 9d43210f827068aa6123dc5212844ae509224441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:20 +0000
Subject: [PATCH 45/51] fix: transpositions by axes which aren't integers were
 accepted

---
 biggus/_init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index a12eaf9..fc0f2a9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1770,6 +1770,9 @@ class TransposedArray(ArrayContainer):
         else:
             # NB. The list we've been given might be changed later on.
             axes = copy.copy(axes)
+        if not all(_is_scalar(axis) and not isinstance(axis, bool)
+                   for axis in axes):
+            raise TypeError('The axes must be integers.')
         if sorted(axes) != list(range(array.ndim)):
             raise ValueError('The axes are not a permutation of the '
                              'dimensions.')
-- 
2.43.0


From fcb44a43fa7b8f4cf2794a400b4a1c40d06b2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:20 +0000
Subject: [PATCH 46/51] fix: aggregations over boolean axes were accepted

---
 biggus/_init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index fc0f2a9..0321f0a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2907,6 +2907,9 @@ def _normalise_axis(axis, array):
     # TypeError/ValueError.
     if axis is None:
         axes = None
+    elif isinstance(axis, bool):
+        # NB. Booleans are also integers.
+        raise TypeError('axis must be None, int, or iterable of ints')
     elif _is_scalar(axis):
         axes = (axis,)
     elif (isinstance(axis, collections.Iterable) and
-- 
2.43.0


From 15b7c97163b9c93e952901755e7338777bbe795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:20 +0000
Subject: [PATCH 47/51] fix: broadcasts to lengths which are not integers were
 accepted

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0321f0a..af7a37c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1001,7 +1001,7 @@ class BroadcastArray(ArrayContainer):
         # Compute the broadcast shape.
         shape = self._shape_from_broadcast_dict(self.array.shape, broadcast)
         for length in leading_shape:
-            if length < 0:
+            if operator.index(length) < 0:
                 raise ValueError('Leading shape must all be >=1, or 0 for an '
                                  'empty array.')
         self._leading_shape = leading_shape
@@ -1207,7 +1207,7 @@ class BroadcastArray(ArrayContainer):
             if not 0 <= axis < len(shape):
                 raise ValueError('Axis {} out of range [0, {})'
                                  ''.format(axis, len(shape)))
-            if length < 0:
+            if operator.index(length) < 0:
                 raise ValueError('Axis length must be positive. Got {}.'
                                  ''.format(length))
             if shape[axis] != 1:
-- 
2.43.0


From eb88f87a6bf7553b11d0ea43fc88f64b3e4e5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:14 +0000
Subject: [PATCH 48/51] fix: the mean of timedeltas failed once half-precision
 means were computed in single precision

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index af7a37c..057103f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2644,7 +2644,7 @@ def _mean_dtypes(array):
     # Integers and booleans are totalled as floats, as NumPy does.
     dtype = (np.zeros(1, dtype=array.dtype) / 1.).dtype
     # Half-precision values soon overflow, and lose their precision.
-    return dtype, np.promote_types(dtype, np.float32)
+    return dtype, np.dtype(np.float32) if dtype == np.float16 else dtype
 
 
 class _MeanStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 425c4642e72a213943d750c85bded57e70d055b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:36 +0000
Subject: [PATCH 49/51] fix: realising an adapter of a virtual array gave
 another virtual array

---
 biggus/_init.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 057103f..ded6d7f 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1603,8 +1603,11 @@ class _ArrayAdapter(Array):
     def _apply_keys(self):
         pass
 
-    def _concrete_array(self):
+    def _concrete_array(self, masked):
         array = self._apply_keys()
+        if isinstance(array, Array):
+            # The data source is itself virtual.
+            array = array.masked_array() if masked else array.ndarray()
         # We want the shape and type of the result to match those of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
@@ -1616,14 +1619,14 @@ class _ArrayAdapter(Array):
         return array
 
     def ndarray(self):
-        array = self._concrete_array()
+        array = self._concrete_array(False)
         if ma.isMaskedArray(array):
             # NB. Filling a 0-dimensional array can give an array-scalar.
             array = np.asarray(array.filled(), dtype=array.dtype)
         return array
 
     def masked_array(self):
-        array = self._concrete_array()
+        array = self._concrete_array(True)
         if not ma.isMaskedArray(array):
             array = ma.MaskedArray(array, fill_value=self.fill_value)
         return array
-- 
2.43.0


From 07fc9ca953b1e5e19a02656bc7bf6d6eb6cd0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:23 +0000
Subject: [PATCH 50/51] fix: an AttributeError from a data source was taken to
 mean that the array wasn't virtual, and its mask was lost

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ded6d7f..2c006e0 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -806,9 +806,10 @@ class ArrayContainer(Array):
 
     def ndarray(self):
         try:
-            return self.array.ndarray()
+            ndarray = self.array.ndarray
         except AttributeError:
             return np.array(self.array)
+        return ndarray()
 
     @property
     def __array_priority__(self):
@@ -816,9 +817,10 @@ class ArrayContainer(Array):
 
     def masked_array(self):
         try:
-            return self.array.masked_array()
+            masked_array = self.array.masked_array
         except AttributeError:
             return np.ma.masked_array(self.array)
+        return masked_array()
 
 
 class NewAxesArray(ArrayContainer):
-- 
2.43.0


From 3fc8d1ed8a6436b88b8eb99c40963e96a15afa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:40 +0000
Subject: [PATCH 51/51] fix: the minimum of a fully masked array, calculated in
 chunks, lost its data type

---
 biggus/_init.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2c006e0..53731df 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2543,7 +2543,10 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def finalise(self):
         array = self.result
         # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
+        if array is ma.masked:
+            # NB. The masked constant doesn't have the type of the data.
+            array = ma.masked_all((), dtype=self.array.dtype)
+        elif array.ndim == 0:
             array = np.ma.array(array)
         chunk = Chunk(self.current_keys, array)
         return chunk
@@ -2586,7 +2589,10 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def finalise(self):
         array = self.result
         # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
+        if array is ma.masked:
+            # NB. The masked constant doesn't have the type of the data.
+            array = ma.masked_all((), dtype=self.array.dtype)
+        elif array.ndim == 0:
             array = np.ma.array(array)
         chunk = Chunk(self.current_keys, array)
         return chunk
-- 
2.43.0

