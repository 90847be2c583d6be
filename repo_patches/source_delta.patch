From e9b37d5432f0eeb1710fc244024ae5cc6e1a2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 01/14] fix: writing a zero over a matrix entry clears it

---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 graphrox-rs/src/matrix/csr_square_matrix.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..644c748 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -366,6 +366,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From be563f09067f5dedc28de9601d958c0125892576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 02/14] fix: incrementing an entry from minus one to zero no
 longer counts it as an entry

---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 644c748..7cd249f 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -93,15 +93,21 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
         }
 
         let row_table = self.edges_table.entry(col).or_default();
-        let entry = row_table.entry(row);
-
-        if let Entry::Vacant(_) = entry {
-            self.entry_count += 1;
+        match row_table.entry(row) {
+            Entry::Vacant(entry) => {
+                entry.insert(T::one());
+                self.entry_count += 1;
+            }
+            Entry::Occupied(mut entry) => {
+                let value = entry.get().add_one();
+                if value == T::zero() {
+                    entry.remove();
+                    self.entry_count -= 1;
+                } else {
+                    entry.insert(value);
+                }
+            }
         }
-
-        entry
-            .and_modify(|e| *e = e.add_one())
-            .or_insert_with(T::one);
     }
 
     #[inline]
-- 
2.43.0


From d4df51d5a8eabaaf87bcbf2e4c876f276c8cc398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 03/14] fix: average pooling with a block dimension above 2^32
 no longer overflows

---
 graphrox-rs/src/graph/standard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..44319f3 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,7 +467,7 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        let block_multiplier = 1.0 / (block_dimension as f64 * block_dimension as f64);
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
         avg_pool_matrix.multiply_entries_by(block_multiplier);
-- 
2.43.0


From 69570f43c3d58317f2547becdf6cc44ac10fd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 04/14] fix: average pooling divides instead of multiplying by
 a rounded reciprocal

---
 graphrox-rs/src/graph/standard.rs           | 4 ++--
 graphrox-rs/src/matrix/csr_square_matrix.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 44319f3..1e8e3a5 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,10 +467,10 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension as f64 * block_dimension as f64);
+        let block_size = block_dimension as f64 * block_dimension as f64;
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
-        avg_pool_matrix.multiply_entries_by(block_multiplier);
+        avg_pool_matrix.divide_entries_by(block_size);
 
         avg_pool_matrix
     }
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 7cd249f..9ccea02 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -325,10 +325,10 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
 
 impl CsrSquareMatrix<f64> {
     #[inline]
-    pub(crate) fn multiply_entries_by(&mut self, multiplier: f64) {
+    pub(crate) fn divide_entries_by(&mut self, divisor: f64) {
         for row_table in self.edges_table.values_mut() {
             for entry in row_table.values_mut() {
-                *entry *= multiplier;
+                *entry /= divisor;
             }
         }
     }
-- 
2.43.0


From 6b0bf4586340920193fc5816b6a5bb0a75397f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 05/14] fix: thresholds between 0 and 10^-18 are clamped to
 10^-18 as documented

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..d48d5cf 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From 0e3b365e6481083d2d345937e256b4200e58fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 06/14] fix: compress counts edges in 8x8 blocks for graphs
 with fewer than 8 vertices

---
 graphrox-rs/src/graph/standard.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 1e8e3a5..dcf6591 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -624,16 +624,20 @@ impl StandardGraph {
     pub fn compress(&self, compression_level: u8) -> CompressedGraph {
         let compression_level = util::clamp_compression_level(compression_level);
 
-        // Subract a very small number to ensure the floating-point imprecision errs on the
-        // side of being slightly less than the 1/64 cut-off
-        let threshold = compression_level as f64 / 64.0 - 0.00001;
-
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
 
-        let avg_pool_matrix = self.find_avg_pool_matrix(COMPRESSION_BLOCK_DIMENSION);
-        for (entry, col, row) in &avg_pool_matrix {
-            if entry >= threshold {
+        // The blocks are always 8x8, even when the graph has fewer than 8 vertices
+        let mut occurrence_matrix: CsrSquareMatrix<u64> = CsrSquareMatrix::new();
+        for (col, row) in &self.adjacency_matrix {
+            occurrence_matrix.increment_entry(
+                col / COMPRESSION_BLOCK_DIMENSION,
+                row / COMPRESSION_BLOCK_DIMENSION,
+            );
+        }
+
+        for (occurrences, col, row) in &occurrence_matrix {
+            if occurrences >= compression_level as u64 {
                 let mut compressed_entry = 0;
                 let mut nodes_in_entry = 0;
 
-- 
2.43.0


From 6667e88f23002baa012d0900bedccf1e5941e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 07/14] fix: a compressed image that repeats a block is refused

---
 graphrox-rs/src/graph/compressed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..9cecef4 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -353,6 +353,14 @@ impl TryFrom<&[u8]> for CompressedGraph {
             }
 
             validate_compressed_entry_bounds(entry, col, row, vertex_count)?;
+
+            let parsed_matrix = &compressed_graph_builder.graph.adjacency_matrix;
+            if parsed_matrix.get_entry(col, row) != 0 {
+                return Err(GraphRoxError::InvalidFormat(String::from(
+                    "CompressedGraph entry is repeated",
+                )));
+            }
+
             let hamming_weight = u64::from(entry.count_ones());
             parsed_edge_count = parsed_edge_count
                 .checked_add(hamming_weight)
-- 
2.43.0


From f229936a9b00d5ec096be94bcfe1434ce2449b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 08/14] fix: an undirected compressed image whose matrix is not
 symmetric is refused

---
 graphrox-rs/src/graph/compressed.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 9cecef4..3769607 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -384,8 +384,33 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let compressed_graph = unsafe { compressed_graph_builder.finish() };
+
+        if compressed_graph.is_undirected {
+            let matrix = &compressed_graph.adjacency_matrix;
+            for (entry, col, row) in matrix {
+                if matrix.get_entry(row, col) != transpose_compressed_entry(entry) {
+                    return Err(GraphRoxError::InvalidFormat(String::from(
+                        "Undirected CompressedGraph matrix is not symmetric",
+                    )));
+                }
+            }
+        }
+
+        Ok(compressed_graph)
+    }
+}
+
+fn transpose_compressed_entry(entry: u64) -> u64 {
+    let mut transposed = 0;
+    for bit in 0..64 {
+        if ((entry >> bit) & 1) != 0 {
+            let col = bit % COMPRESSION_BLOCK_DIMENSION;
+            let row = bit / COMPRESSION_BLOCK_DIMENSION;
+            transposed |= 1 << (col * COMPRESSION_BLOCK_DIMENSION + row);
+        }
     }
+    transposed
 }
 
 fn read_u32_be(bytes: &[u8], offset: usize) -> Result<u32, GraphRoxError> {
-- 
2.43.0


From c606e0bb4b8569bbd335906bc0959a58eeb5879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 09/14] fix: C string functions return NULL when the terminator
 cannot be allocated instead of aborting

---
 graphrox-c/src/lib.rs | 44 ++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..b141168 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -45,6 +45,20 @@ fn boxed_bytes_to_raw(bytes: Vec<u8>, buffer_size: *mut usize) -> *mut u8 {
     Box::into_raw(bytes.into_boxed_slice()) as *mut u8
 }
 
+#[inline]
+fn string_to_raw(string: String) -> *mut ffi::c_char {
+    // Reserve space for the terminator up front: CString aborts if it can't allocate it
+    let mut bytes = string.into_bytes();
+    if bytes.try_reserve_exact(1).is_err() {
+        return ptr::null_mut();
+    }
+
+    match ffi::CString::new(bytes) {
+        Ok(s) => s.into_raw(),
+        Err(_) => ptr::null_mut(),
+    }
+}
+
 #[repr(C)]
 #[derive(Copy, Clone)]
 pub struct GphrxGraph {
@@ -205,13 +219,9 @@ pub unsafe extern "C" fn gphrx_matrix_string(graph: GphrxGraph) -> *mut ffi::c_c
     let Some(graph) = graph_ref(graph) else {
         return ptr::null_mut();
     };
-    match graph
-        .matrix_string()
-        .ok()
-        .and_then(|s| ffi::CString::new(s).ok())
-    {
-        Some(s) => s.into_raw(),
-        None => ptr::null_mut(),
+    match graph.matrix_string() {
+        Ok(s) => string_to_raw(s),
+        Err(_) => ptr::null_mut(),
     }
 }
 
@@ -582,13 +592,9 @@ pub unsafe extern "C" fn gphrx_compressed_graph_matrix_string(
     let Some(graph) = compressed_graph_ref(graph) else {
         return ptr::null_mut();
     };
-    match graph
-        .matrix_string()
-        .ok()
-        .and_then(|s| ffi::CString::new(s).ok())
-    {
-        Some(s) => s.into_raw(),
-        None => ptr::null_mut(),
+    match graph.matrix_string() {
+        Ok(s) => string_to_raw(s),
+        Err(_) => ptr::null_mut(),
     }
 }
 
@@ -749,13 +755,9 @@ pub unsafe extern "C" fn gphrx_matrix_to_string_with_precision(
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match matrix
-        .to_string_with_precision(decimal_digits)
-        .ok()
-        .and_then(|s| ffi::CString::new(s).ok())
-    {
-        Some(s) => s.into_raw(),
-        None => ptr::null_mut(),
+    match matrix.to_string_with_precision(decimal_digits) {
+        Ok(s) => string_to_raw(s),
+        Err(_) => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From 3c7d2b3f9574049dce25bd5c90a2a4b3dfe8d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 10/14] fix: gphrx_matrix_to_string returns NULL when the text
 is too large instead of aborting

---
 graphrox-c/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index b141168..73f2b1e 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -741,8 +741,9 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
+    // The same text as `matrix.to_string()`, which panics if it can't be allocated
+    match matrix.to_string_with_precision(2) {
+        Ok(s) => string_to_raw(s),
         Err(_) => ptr::null_mut(),
     }
 }
-- 
2.43.0


From e6584ce9c4b765d1baf93e0850ff9042812f020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 11/14] fix: from_bytes raises ValueError for invalid bytes
 instead of TypeError

Graph.__name__ is a string, not a method.
---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From 8474f68c317c35514fd921de63ccff8c632d863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 12/14] fix: bytes and matrix strings raise MemoryError when
 the native call fails

bytes() returned an empty value and the strings an AttributeError.
---
 graphrox-py/graphrox/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..df4ef29 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -272,6 +272,9 @@ class Graph:
     def __bytes__(self):
         size = ctypes.c_size_t()
         bytes_ptr = _lib.gphrx_to_bytes(self._graph, ctypes.byref(size))
+        if not bytes_ptr:
+            raise MemoryError('unable to allocate the bytes of the graph')
+
         py_bytes = bytes(bytes_ptr[:size.value])
 
         _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
@@ -303,6 +306,9 @@ class Graph:
     def matrix_string(self):
         """Returns the adjacency matrix of the graph as a string."""
         c_str = _lib.gphrx_matrix_string(self._graph)
+        if not c_str:
+            raise MemoryError('unable to allocate the matrix string')
+
         py_str = ctypes.cast(c_str, ctypes.c_char_p).value
         _lib.free_gphrx_string_buffer(c_str)
         return py_str.decode('utf-8')
@@ -587,6 +593,9 @@ class CompressedGraph:
     def __bytes__(self):
         size = ctypes.c_size_t()
         bytes_ptr = _lib.gphrx_compressed_graph_to_bytes(self._graph, ctypes.byref(size))
+        if not bytes_ptr:
+            raise MemoryError('unable to allocate the bytes of the graph')
+
         py_bytes = bytes(bytes_ptr[:size.value])
 
         _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
@@ -623,6 +632,9 @@ class CompressedGraph:
         uncompressed graph's adjacency matrix.
         """
         c_str = _lib.gphrx_compressed_graph_matrix_string(self._graph)
+        if not c_str:
+            raise MemoryError('unable to allocate the matrix string')
+
         py_str = ctypes.cast(c_str, ctypes.c_char_p).value
         _lib.free_gphrx_string_buffer(c_str)
         return py_str.decode('utf-8')
@@ -717,6 +729,9 @@ class CsrSquareMatrix:
         matrix string (default 2).
         """
         c_str = _lib.gphrx_matrix_to_string_with_precision(self._matrix, decimal_digits)
+        if not c_str:
+            raise MemoryError('unable to allocate the matrix string')
+
         py_str = ctypes.cast(c_str, ctypes.c_char_p).value
         _lib.free_gphrx_string_buffer(c_str)
         return py_str.decode('utf-8')
-- 
2.43.0


From 8581942bb94cc923a9d8954ce6caa15bf367f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 13/14] fix: i128 matrices are not matrices of decimals

Their text had a decimal point in the zeros but not in the other entries, and was padded for
decimals that are not there.
---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index d48d5cf..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From 6ff230c80aac8aa91844e24505e5edf6606afca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 14/14] fix: matrix text garbled entries whose width it guessed
 wrongly

The width of an entry was guessed from the digits of the extremes before rounding. Values that
round up to another digit, negative values, infinities and decimals of integers overflowed their
place and overwrote what followed or ran out of the buffer; zeros without decimals kept a
decimal point; matrices without entries were padded to the width of the largest number of the
type; and more than 65535 decimals panicked. Entries are now measured as they are shown.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 188 +++++++++++---------
 graphrox-rs/src/util/mod.rs                 | 183 -------------------
 2 files changed, 105 insertions(+), 266 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 9ccea02..3f72a67 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -1,7 +1,8 @@
 use std::collections::hash_map::Entry;
 use std::collections::hash_map::Iter as HashMapIter;
 use std::collections::HashMap;
-use std::fmt::{self, Debug, Display};
+use std::fmt::{self, Debug, Display, Write};
+use std::io;
 use std::iter::{IntoIterator, Iterator};
 
 use crate::error::GraphRoxError;
@@ -165,58 +166,28 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             return Ok(String::new());
         }
 
-        let mut highest = T::min();
-        let mut lowest = T::max();
+        let size_overflow =
+            || GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"));
 
-        let edge_table_values = self.edges_table.values();
+        // Every entry is as wide as the longest one
+        let zero = FormattedEntry::new(T::zero(), decimal_digits);
+        let mut entry_size = zero.len().ok_or_else(size_overflow)?;
 
-        if edge_table_values.len() == 0 {
-            highest = T::zero();
-        } else {
-            for row_table in edge_table_values {
-                for val in row_table.values() {
-                    if val.gt(&highest) {
-                        highest = *val;
-                    }
-
-                    if val.lt(&lowest) {
-                        lowest = *val;
-                    }
-                }
+        for row_table in self.edges_table.values() {
+            for val in row_table.values() {
+                let len = FormattedEntry::new(*val, decimal_digits).len();
+                entry_size = entry_size.max(len.ok_or_else(size_overflow)?);
             }
         }
 
-        let highest_integral_count = highest.integral_digit_count();
-        let lowest_integral_count = lowest.integral_digit_count();
-        let mut entry_size = if highest_integral_count > lowest_integral_count {
-            highest_integral_count
-        } else {
-            lowest_integral_count
-        };
-
-        if T::has_decimal() || decimal_digits > 0 {
-            entry_size += 1 + decimal_digits;
-        }
-
-        // One for the digit in front of the decimal
-        let smallest_entry_chars = 1 + if T::has_decimal() || decimal_digits > 0 {
-            // One for the decimal, one for each decimal digit
-            1 + decimal_digits
-        } else {
-            0
-        };
-
-        let entry_left_padding = entry_size - smallest_entry_chars;
-        let chars_per_entry = entry_size + 2;
+        let chars_per_entry = entry_size.checked_add(2).ok_or_else(size_overflow)?;
 
         let dimension = usize::try_from(self.dimension).map_err(|_| {
             GraphRoxError::CapacityOverflow(String::from(
                 "Matrix dimension does not fit in platform usize",
             ))
         })?;
-        let matrix_entry_count = dimension.checked_mul(dimension).ok_or_else(|| {
-            GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"))
-        })?;
+        let matrix_entry_count = dimension.checked_mul(dimension).ok_or_else(size_overflow)?;
         let buffer_size = EXTRA_CHARS_PER_ROW_TOTAL
             .checked_mul(dimension)
             .and_then(|rows| {
@@ -225,9 +196,7 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     .checked_add(rows)
             })
             .and_then(|size| size.checked_sub(2))
-            .ok_or_else(|| {
-                GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"))
-            })?;
+            .ok_or_else(size_overflow)?;
 
         let mut buffer = Vec::new();
         buffer.try_reserve_exact(buffer_size).map_err(|_| {
@@ -244,16 +213,13 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             pos += 1;
 
             for col in 0..self.dimension {
-                for char_pos in 0..entry_size {
-                    buffer[pos] = if char_pos < entry_left_padding {
-                        b' '
-                    } else if char_pos == entry_left_padding + 1 {
-                        b'.'
-                    } else {
-                        b'0'
-                    };
-                    pos += 1;
+                if pos == EXTRA_CHARS_PER_ROW_AT_FRONT {
+                    zero.write_to(&mut buffer[pos..pos + entry_size]);
+                } else {
+                    let first = EXTRA_CHARS_PER_ROW_AT_FRONT;
+                    buffer.copy_within(first..first + entry_size, pos);
                 }
+                pos += entry_size;
 
                 if col != self.dimension - 1 {
                     buffer[pos] = b',';
@@ -285,35 +251,8 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + EXTRA_CHARS_PER_ROW_AT_FRONT
                     + chars_per_entry * *col as usize;
 
-                let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let width = if lowest.lt(&T::zero()) {
-                        highest.integral_digit_count() + 1
-                    } else {
-                        highest.integral_digit_count()
-                    };
-
-                    let mut temp = format!("{number: >width$}.", number = value, width = width,);
-
-                    for _ in 0..decimal_digits {
-                        temp.push('0');
-                    }
-
-                    temp
-                } else {
-                    format!(
-                        "{number: >width$.decimals$}",
-                        number = value,
-                        width = entry_size,
-                        decimals = decimal_digits
-                    )
-                };
-
-                let num = num.as_bytes();
-
-                for b in num {
-                    buffer[pos] = *b;
-                    pos += 1;
-                }
+                FormattedEntry::new(*value, decimal_digits)
+                    .write_to(&mut buffer[pos..pos + entry_size]);
             }
         }
 
@@ -323,6 +262,89 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
     }
 }
 
+/// No floating-point number has more digits than this after the decimal. The formatter
+/// accepts no more than `u16::MAX`.
+const MAX_FORMATTED_DECIMAL_DIGITS: usize = 1074;
+
+/// A matrix entry as it is shown in the matrix string.
+struct FormattedEntry<T> {
+    value: T,
+    decimal_digits: usize,
+}
+
+impl<T: Display + Numeric> FormattedEntry<T> {
+    fn new(value: T, decimal_digits: usize) -> Self {
+        Self {
+            value,
+            decimal_digits,
+        }
+    }
+
+    /// The length of what is displayed and the number of zeros that are to follow it.
+    fn measure(&self) -> (usize, usize) {
+        let mut length = EntryLength::default();
+        let _ = write!(length, "{self}");
+
+        let trailing_zeros = if !T::has_decimal() {
+            self.decimal_digits
+        } else if length.ends_with_digit {
+            self.decimal_digits
+                .saturating_sub(MAX_FORMATTED_DECIMAL_DIGITS)
+        } else {
+            0 // Infinity and NaN
+        };
+
+        (length.chars, trailing_zeros)
+    }
+
+    fn len(&self) -> Option<usize> {
+        let (chars, trailing_zeros) = self.measure();
+        chars.checked_add(trailing_zeros)
+    }
+
+    /// Writes the entry aligned to the right of `buffer`, which is at least as long.
+    fn write_to(&self, buffer: &mut [u8]) {
+        let (chars, trailing_zeros) = self.measure();
+        let end = buffer.len() - trailing_zeros;
+        let start = end - chars;
+
+        buffer[..start].fill(b' ');
+        let _ = io::Write::write_fmt(&mut &mut buffer[start..end], format_args!("{self}"));
+        buffer[end..].fill(b'0');
+    }
+}
+
+impl<T: Display + Numeric> Display for FormattedEntry<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        if T::has_decimal() {
+            let decimals = self.decimal_digits.min(MAX_FORMATTED_DECIMAL_DIGITS);
+            write!(f, "{:.decimals$}", self.value)
+        } else if self.decimal_digits > 0 {
+            write!(f, "{}.", self.value)
+        } else {
+            write!(f, "{}", self.value)
+        }
+    }
+}
+
+/// Measures text without storing it.
+#[derive(Default)]
+struct EntryLength {
+    chars: usize,
+    ends_with_digit: bool,
+}
+
+impl fmt::Write for EntryLength {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        if let Some(last) = s.bytes().last() {
+            self.chars += s.len();
+            self.ends_with_digit = last.is_ascii_digit();
+        }
+
+        Ok(())
+    }
+}
+
 impl CsrSquareMatrix<f64> {
     #[inline]
     pub(crate) fn divide_entries_by(&mut self, divisor: f64) {
diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index e998646..1b87a4e 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -33,27 +33,14 @@ pub fn clamp_compression_level(compression_level: u8) -> u8 {
 }
 
 pub trait Numeric: PartialOrd + Copy {
-    fn max() -> Self;
-    fn min() -> Self;
     fn zero() -> Self;
     fn one() -> Self;
     fn has_decimal() -> bool;
 
     fn add_one(&self) -> Self;
-    fn integral_digit_count(&self) -> usize;
 }
 
 impl Numeric for u8 {
-    #[inline(always)]
-    fn max() -> Self {
-        u8::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        u8::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -73,24 +60,9 @@ impl Numeric for u8 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for u16 {
-    #[inline(always)]
-    fn max() -> Self {
-        u16::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        u16::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -110,24 +82,9 @@ impl Numeric for u16 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for u32 {
-    #[inline(always)]
-    fn max() -> Self {
-        u32::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        u32::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -147,24 +104,9 @@ impl Numeric for u32 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for u64 {
-    #[inline(always)]
-    fn max() -> Self {
-        u64::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        u64::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -184,24 +126,9 @@ impl Numeric for u64 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for u128 {
-    #[inline(always)]
-    fn max() -> Self {
-        u128::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        u128::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -221,24 +148,9 @@ impl Numeric for u128 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for i8 {
-    #[inline(always)]
-    fn max() -> Self {
-        i8::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        i8::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -258,24 +170,9 @@ impl Numeric for i8 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for i16 {
-    #[inline(always)]
-    fn max() -> Self {
-        i16::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        i16::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -295,24 +192,9 @@ impl Numeric for i16 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for i32 {
-    #[inline(always)]
-    fn max() -> Self {
-        i32::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        i32::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -332,24 +214,9 @@ impl Numeric for i32 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for i64 {
-    #[inline(always)]
-    fn max() -> Self {
-        i64::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        i64::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -369,24 +236,9 @@ impl Numeric for i64 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for i128 {
-    #[inline(always)]
-    fn max() -> Self {
-        i128::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        i128::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0
@@ -406,24 +258,9 @@ impl Numeric for i128 {
     fn add_one(&self) -> Self {
         self + 1
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        self.to_string().len()
-    }
 }
 
 impl Numeric for f32 {
-    #[inline(always)]
-    fn max() -> Self {
-        f32::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        f32::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0.0
@@ -443,24 +280,9 @@ impl Numeric for f32 {
     fn add_one(&self) -> Self {
         self + 1.0
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        (*self as i128).to_string().len()
-    }
 }
 
 impl Numeric for f64 {
-    #[inline(always)]
-    fn max() -> Self {
-        f64::MAX
-    }
-
-    #[inline(always)]
-    fn min() -> Self {
-        f64::MIN
-    }
-
     #[inline(always)]
     fn zero() -> Self {
         0.0
@@ -480,9 +302,4 @@ impl Numeric for f64 {
     fn add_one(&self) -> Self {
         self + 1.0
     }
-
-    #[inline(always)]
-    fn integral_digit_count(&self) -> usize {
-        (*self as i128).to_string().len()
-    }
 }
-- 
2.43.0

