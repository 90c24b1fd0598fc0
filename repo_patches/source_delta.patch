From 62877b923e403d39a4a802f48b2b65753dee52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 1/5] fix: build_rips_bases with max_dim 0 indexed past the
 only basis

---
 phlite_rips/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..a923acb 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -145,7 +145,7 @@ fn add_cofacets(
     let max_element = simplex_as_vec.last().unwrap();
     let prev_dimension = simplex_as_vec.len() - 1;
     let new_dimension = prev_dimension + 1;
-    if *max_element == n_vertices - 1 {
+    if new_dimension > max_dim || *max_element == n_vertices - 1 {
         // Cannot extend
         return;
     }
-- 
2.43.0


From 55dd33868cdd2339f15b717100837b45a53a674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 2/5] fix: RipsCoboundary::column_with_filtration read the
 distance to the vertex after the inserted one

---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From e6fa1cb55edb2378c1abdda532c84908ec793ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 3/5] fix: WithCachedCols panicked when a new column was
 requested whilst an iterator was live

---
 phlite/src/matrices/adaptors.rs | 43 +++++++--------------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..cb1f4ad 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,7 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
+    cell::RefCell,
     cmp::Reverse,
     collections::HashMap,
     hash::Hash,
@@ -198,29 +198,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -242,16 +219,14 @@ where
                 .borrow_mut()
                 .insert(col.clone(), col_as_vec.clone());
         }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
-        });
-        // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        // Copy the column out of the cache, so that no borrow outlives this call.
+        // Otherwise, requesting an uncached column whilst the iterator is live would panic.
+        self.cache
+            .borrow()
+            .get(&col)
+            .expect("Just populated key")
+            .clone()
+            .into_iter()
     }
 }
 
-- 
2.43.0


From 56bca53a131859d8db0dbb93168b0363cb59a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 4/5] fix: read_off_diagram kept paired births as essential
 when they were read after their death

---
 phlite/src/reduction/standard.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/phlite/src/reduction/standard.rs b/phlite/src/reduction/standard.rs
index 6e94415..45d2ca5 100644
--- a/phlite/src/reduction/standard.rs
+++ b/phlite/src/reduction/standard.rs
@@ -138,13 +138,18 @@ where
                 essential.insert(basis_element);
             }
             Some(piv) => {
-                pairings.insert((piv.row_index.clone(), basis_element));
-                essential.remove(&piv.row_index);
+                pairings.insert((piv.row_index, basis_element));
             }
         }
         if r_i.pop_pivot().is_none() {}
     }
 
+    // A birth may be read before or after the death it is paired with,
+    // so paired births can only be discarded once all columns have been read.
+    for (birth, _death) in &pairings {
+        essential.remove(birth);
+    }
+
     Diagram {
         essential,
         pairings,
-- 
2.43.0


From d8225faf296a528bbdfdf2f521c9e966ab25ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:19 +0000
Subject: [PATCH 5/5] fix: refuse vertices that do not fit the graph in
 phlite_grpph

Vertex labels were truncated to 16 bits, so that an edge naming a vertex outside
of the graph could be taken for another edge and the barcode of a different
graph was returned.
---
 phlite_grpph/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/phlite_grpph/src/lib.rs b/phlite_grpph/src/lib.rs
index 8aaa12a..b721825 100644
--- a/phlite_grpph/src/lib.rs
+++ b/phlite_grpph/src/lib.rs
@@ -20,7 +20,23 @@ use crate::{
     coboundary::{GrPPHCoboundary, PathHomSingleBasis},
 };
 
+// Cells label their vertices by `u16`, other labels would be truncated to those of different vertices
+fn check_vertices(n_vertices: u32, edges: &[(u32, u32, f64)]) {
+    assert!(
+        n_vertices <= u32::from(u16::MAX),
+        "Cannot represent a graph with {n_vertices} vertices"
+    );
+    for (i, j, _t) in edges {
+        assert!(
+            *i < n_vertices && *j < n_vertices,
+            "Edge ({i}, {j}) refers to a vertex outside of the graph"
+        );
+    }
+}
+
 fn build_filtration(n_vertices: u32, edges: &[(u32, u32, f64)]) -> Vec<Vec<Option<NotNan<f64>>>> {
+    check_vertices(n_vertices, edges);
+
     // Build graph
     let mut g = Graph::<(), f64>::new();
     // Add all nodes
-- 
2.43.0

