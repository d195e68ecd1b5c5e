From 022df160197976a1e3e86d50b5d217495605b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 1/4] fix: let a cached column be requested whilst another
 column iterator is alive

---
 phlite/src/matrices/adaptors.rs | 48 +++++++--------------------------
 1 file changed, 9 insertions(+), 39 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..d8cbf16 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,7 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
+    cell::RefCell,
     cmp::Reverse,
     collections::HashMap,
     hash::Hash,
@@ -198,29 +198,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -235,23 +212,16 @@ where
         &self,
         col: Self::ColT,
     ) -> impl Iterator<Item = (Self::CoefficientField, Self::RowT)> {
-        // Compute column if not yet cached
-        if !self.cache.borrow().contains_key(&col) {
+        // Return a copy so that no borrow of the cache outlives this call,
+        // otherwise caching another column would panic whilst this iterator is alive
+        let cached_col = self.cache.borrow().get(&col).cloned();
+        let col_as_vec = cached_col.unwrap_or_else(|| {
+            // Compute column if not yet cached
             let col_as_vec: Vec<_> = self.oracle.column(col.clone()).collect();
-            self.cache
-                .borrow_mut()
-                .insert(col.clone(), col_as_vec.clone());
-        }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
+            self.cache.borrow_mut().insert(col, col_as_vec.clone());
+            col_as_vec
         });
-        // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        col_as_vec.into_iter()
     }
 }
 
-- 
2.43.0


From 5af9b350b7b59959101cc0bfbe19549e0bd64592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 2/4] fix: report the vertex that was inserted by the Rips
 coboundary iterator

---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From 48667ddca84f7540c7c183f08a818aad9eb4f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 3/4] fix: build Rips bases up to dimension 0 without panicking

---
 phlite_rips/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..1d7fde9 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -191,13 +191,15 @@ pub fn build_rips_bases(
             NotNan::new(0.0_f64).unwrap(),
             RipsIndex::from_indices(vec![v].into_iter(), n_points).unwrap(),
         ));
-        add_cofacets(
-            &mut bases,
-            &mut simplex,
-            NotNan::new(0 as f64).unwrap(),
-            distances,
-            max_dim,
-        );
+        if max_dim > 0 {
+            add_cofacets(
+                &mut bases,
+                &mut simplex,
+                NotNan::new(0 as f64).unwrap(),
+                distances,
+                max_dim,
+            );
+        }
     }
 
     for basis in bases.iter_mut().take(max_dim + 1) {
-- 
2.43.0


From 5c01129e07e2666c2e96cb3373dda9ee85801d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 4/4] Verification hook: the private entry points of
 phlite_grpph under cfg(phlite_verif)

---
 phlite_grpph/src/lib.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/phlite_grpph/src/lib.rs b/phlite_grpph/src/lib.rs
index 8aaa12a..84b211b 100644
--- a/phlite_grpph/src/lib.rs
+++ b/phlite_grpph/src/lib.rs
@@ -212,3 +212,29 @@ fn phlite_grpph(_py: Python, m: &Bound<'_, PyModule>) -> PyResult<()> {
 
 // A function that gathers stub information
 define_stub_info_gatherer!(stub_info);
+
+/// The private entry points, for verification only.
+#[cfg(phlite_verif)]
+pub mod verif {
+    pub fn grpph(
+        n_vertices: u32,
+        edges: Vec<(u32, u32, f64)>,
+    ) -> (super::EssentialBars, super::PairingBars) {
+        super::grpph(n_vertices, edges)
+    }
+
+    pub fn grpph_with_involution(
+        n_vertices: u32,
+        edges: Vec<(u32, u32, f64)>,
+    ) -> (super::EssentialBars, super::PairingBars, super::RepList) {
+        super::grpph_with_involution(n_vertices, edges)
+    }
+
+    #[cfg(phlite_verif = "filtration")]
+    pub fn build_filtration(
+        n_vertices: u32,
+        edges: &[(u32, u32, f64)],
+    ) -> Vec<Vec<Option<ordered_float::NotNan<f64>>>> {
+        super::build_filtration(n_vertices, edges)
+    }
+}
-- 
2.43.0

