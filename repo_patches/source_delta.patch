From 3533c67b92d8e5ac71bd4a0c78ae726000c64861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 01/33] verif hook: make the spatial module reachable under
 cfg(bugi_verif)

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 04a3ec1..720c8e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,7 +2,10 @@ pub mod element;
 pub mod file;
 pub mod matrix;
 pub mod mesher;
+#[cfg(not(bugi_verif))]
 mod spatial;
+#[cfg(bugi_verif)]
+pub mod spatial;
 pub mod visual;
 
 #[cfg(test)]
-- 
2.43.0


From dd09c45492161dbf202bf4e2ec1512db42874ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 02/33] fix: keep trailing vertices without edges in
 Graph::from_edges

---
 src/matrix/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..eed9c0f 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,9 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // fill out any trailing vertices without edges
+        res.indices.resize(v_count, res.adjacent.len());
+
         res
     }
 
-- 
2.43.0


From b0760d16392c1d992a48d3f0af9f5c076472f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 03/33] fix: order every component of a disconnected graph in
 reverse_cuthill_mckee

---
 src/matrix/graph.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index eed9c0f..e5c7164 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -192,7 +192,12 @@ impl Graph {
         // identify a pseudoperipheral node of the graph by George and Liu's method
 
         // choose an arbitrary starting node
-        let mut x = 0;
+        self.pseudo_peripheral_from(0)
+    }
+
+    fn pseudo_peripheral_from(&mut self, start: usize) -> usize {
+        // identify a pseudoperipheral node of the component containing start
+        let mut x = start;
         let mut longest = 0;
 
         loop {
@@ -211,12 +216,17 @@ impl Graph {
         // find the reverse cuthill mckee labelling of the graph's nodes
 
         let mut ordering = Vec::new();
-        ordering.push(self.pseudo_peripheral());
-
         let mut mask = vec![true; self.vertex_count()];
-        mask[ordering[0]] = false;
 
         for i in 0..self.vertex_count() {
+            if i == ordering.len() {
+                // all reachable vertices are ordered, start on the next component
+                let unvisited = mask.iter().position(|m| *m).unwrap();
+                let start = self.pseudo_peripheral_from(unvisited);
+                mask[start] = false;
+                ordering.push(start);
+            }
+
             let adj = self.adjacent_masked(ordering[i], &mask);
 
             for a in adj {
-- 
2.43.0


From 0e03ac03705314535a685885e65956e37e7abbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 04/33] fix: give CompressedRow::zeros a start for every row

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..955eff4 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -691,7 +691,7 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
-- 
2.43.0


From 39300d6deaae99fbfdd167c223aa2f04333df228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 05/33] fix: store the diagonal of CompressedRow::eye

---
 src/matrix/sparse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 955eff4..5e4a27b 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -729,6 +729,13 @@ impl MatrixLike for CompressedRow {
         }
     }
 
+    // rows cannot be extended in place, so the diagonal has to be stored up front
+
+    fn eye<T: Into<MatrixShape>>(dim: T) -> Self {
+        let n = dim.into().max_dim;
+        Self::from_labeled_vals((n, n), (0..n).map(|i| ((i, i), 1.0)).collect())
+    }
+
     // specialized mul, taking advantage of sparsity
 
     fn mul<T: MatrixLike, U: MatrixLike>(&self, other: &T) -> U {
-- 
2.43.0


From 92edadcc0cf45fdb9301647b394da9e06513196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 06/33] fix: swap the dimensions in Dictionary::transposed

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 5e4a27b..ce0f9d6 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -520,7 +520,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0


From 8ad6628b198792a93bed94f293c15db5feabcb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 07/33] fix: superpose the loads acting on a node

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..5265c73 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -250,7 +250,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -259,8 +259,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // an edge shared by two elements carries the force once
+                    break;
                 }
             }
         }
-- 
2.43.0


From 46e34b1132129e9d62ee8a0aa3d5aa04dfcda3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 08/33] fix: keep the stiffness of clockwise elements positive

---
 src/element/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..ee0c0b9 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -214,7 +214,7 @@ impl Element {
             // the integrand for K is thickness * (det J) * B_t * C * B
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            inter *= mats.det_j.abs(); // an element may be numbered clockwise
             inter *= mats.thickness;
             mats.b.transpose();
 
-- 
2.43.0


From 868d1f388712bd2a1b73ab063bf151564e0a4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 09/33] fix: scale the element mass matrix by the area of the
 element

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index ee0c0b9..17f0e61 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -231,11 +231,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * scaling * |det J| * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From c36bb142cca950bc2f17320a49e562f656be888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 10/33] fix: pivot on the greatest magnitude in solve_gausselim

---
 src/matrix/inverse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..4661c6b 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -36,13 +36,14 @@ where
 
         // triangularize the matrix
         for col in 0..dim {
-            // find the row with the greatest value in the current column
+            // find the row with the greatest magnitude in the current column
             // (after finished rows)
             let max = self
                 .col(col)
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
+                .filter(|(_, &x)| x != 0.0)
+                .max_by(|(_, x), (_, y)| x.abs().partial_cmp(&y.abs()).unwrap());
             if max == None {
                 return Err(MatrixError::solve("no non-zero values remain in column"));
             }
-- 
2.43.0


From c899bcb01e8985de1b1e2bfdc17982db42d75c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 11/33] fix: let gauss_seidel converge to a zero solution

---
 src/matrix/solve/iterative.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..52da864 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -82,7 +82,7 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        if diff_norm <= tol * u.frobenius() {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From 36712e0f42a1439414b7d753c88b185fbcfa2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 12/33] fix: von Mises value of plane and bar stress states

---
 src/element/stress.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index e6d0492..3b8063d 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -102,9 +102,13 @@ impl StressState {
     pub fn von_mises(&self) -> f64 {
         // compute the von mises yield criterion
         match self.state_type {
-            StressType::Bar => self.data[0],
+            StressType::Bar => self.data[0].abs(),
             StressType::Plane => {
-                ((self.data[0] - self.data[1]).powi(2) + 3.0 * self.data[2].powi(2)).sqrt()
+                // the stress normal to the plane is zero
+                let normals = (self.data[0] - self.data[1]).powi(2)
+                    + self.data[0].powi(2)
+                    + self.data[1].powi(2);
+                (0.5 * normals + 3.0 * self.data[2].powi(2)).sqrt()
             }
             StressType::ThreeD => {
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From f02ed2b818dde60726360eaa64d61b15ab709d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 13/33] fix: fill both triangles of the Cauchy stress tensor

---
 src/element/stress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index 3b8063d..feedcb7 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -91,7 +91,7 @@ impl StressState {
 
         let mut res = LinearMatrix::zeros(dim);
         for r in 0..dim {
-            for c in r..dim {
+            for c in 0..dim {
                 res[(r, c)] = self.data[self.loc(r, c)];
             }
         }
-- 
2.43.0


From 671981c6452063eccab0878d0c33c03850bbfad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 14/33] fix: adding a free constraint keeps an angled one

---
 src/element/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 5265c73..bcf1e0b 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -189,6 +189,7 @@ impl ElementAssemblage {
 
     pub fn add_constraint(&mut self, n: NodeId, constraint: Constraint) {
         match (self.constraints[n.0], constraint) {
+            (_, Constraint::Free) => {}
             (Constraint::Free, c) => {
                 self.constraints[n.0] = c;
             }
-- 
2.43.0


From a04cca1ff9dd5adfe8cb5a6ce22c4ae879df8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 15/33] fix: use every coordinate in in_sphere

---
 src/spatial/predicates.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index dbe6a19..c63c856 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -111,27 +111,27 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
             a[0],
             a[1],
             a[2],
-            a[0].powi(2) + a[1].powi(2) + a[1].powi(2),
+            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
             1.0,
             b[0],
             b[1],
             b[2],
-            b[0].powi(2) + b[1].powi(2) + b[1].powi(2),
+            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
             1.0,
             c[0],
             c[1],
             c[2],
-            c[0].powi(2) + c[1].powi(2) + c[1].powi(2),
+            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
             1.0,
             d[0],
             d[1],
             d[2],
-            d[0].powi(2) + d[1].powi(2) + d[1].powi(2),
+            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
             1.0,
             p[0],
             p[1],
             p[2],
-            p[0].powi(2) + p[1].powi(2) + p[1].powi(2),
+            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
             1.0,
         ],
     );
-- 
2.43.0


From ea891a1e1251abcf81eea7362f184d03b58f7dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 16/33] fix: keep the distributed constraint on the last piece
 of a divided segment

---
 src/mesher/bounds.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 96abe86..f528aee 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -423,6 +423,10 @@ impl PlaneBoundary {
         if let Some(f) = dist_f {
             self.distributed_forces.insert((cur, end).into(), f);
         }
+
+        if let Some(c) = dist_c {
+            self.distributed_constraints.insert((cur, end).into(), c);
+        }
     }
 
     pub fn split_segment(&mut self, s: Segment) -> (Segment, Segment, Vertex) {
-- 
2.43.0


From c5ca842587b3c73bfe719ce8c106c8ea7f8e479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 17/33] fix: a vertex between two constrained walls keeps both
 constraints

---
 src/mesher/bounds.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index f528aee..ec87c33 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -401,23 +401,16 @@ impl PlaneBoundary {
             }
 
             if let Some(c) = dist_c {
+                // distributed constraints are just bookkeeping
+                // they mark segments whose end points should have constraints
                 self.distributed_constraints
                     .insert((cur, new_point_id).into(), c);
-
-                // distributed constraints are just bookkeeping
-                // they mark segments where new points should have cosntraints
-                self.constraints.insert(new_point_id, c);
             }
 
             cur = new_point_id;
             new_point = new_point + leg;
         }
 
-        if let Some(c) = dist_c {
-            self.constraints.insert(start, c);
-            self.constraints.insert(end, c);
-        }
-
         self.store_segment_unchecked((cur, end));
 
         if let Some(f) = dist_f {
@@ -493,19 +486,20 @@ impl PlaneBoundary {
 
     pub fn all_constraints(&self) -> Vec<(Vertex, Constraint)> {
         // include the vertices of distributed constraints
+        // a vertex appears once for every constraint which applies to it
 
-        let mut res: HashMap<Vertex, Constraint> = HashMap::new();
+        let mut res: Vec<(Vertex, Constraint)> = Vec::new();
 
         for (v, c) in self.constraints.iter() {
-            res.insert(*v, *c);
+            res.push((*v, *c));
         }
 
         for (s, c) in self.distributed_constraints.iter() {
-            res.insert(s.0, *c);
-            res.insert(s.1, *c); // will just overwrite any duplicates
+            res.push((s.0, *c));
+            res.push((s.1, *c));
         }
 
-        res.into_iter().collect()
+        res
     }
 
     pub fn visualize(&self) -> Visualizer {
-- 
2.43.0


From c9bc396c5a1907b9199374d15179421d78458e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 18/33] fix: draw coinciding points in the center of the image

---
 src/visual/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..12f09df 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -145,7 +145,11 @@ impl Visualizer {
 
         // want to bring the range down to 80% of the image width
         let target_range = 0.8 * (self.im_size as f64);
-        let scaling = target_range / max_range;
+        let scaling = if max_range > 0.0 {
+            target_range / max_range
+        } else {
+            1.0 // all points coincide in the center of the image
+        };
 
         let middle_x = (x_max + x_min) / 2.0;
         let middle_y = (y_max + y_min) / 2.0;
-- 
2.43.0


From efe21a03e3fa0541d752375c45f320614b9c7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 19/33] fix: resolve repeated eigenvalues in
 DeterminantSearcher

---
 src/matrix/solve/eigen.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index e3a7903..d6ba29e 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -51,6 +51,11 @@ impl ManyEigenRange {
         (self.lower + self.upper) / 2.0
     }
 
+    fn is_narrow(&self) -> bool {
+        // whether the eigenvalues in the range are too close to be worth separating
+        self.upper - self.lower <= 1e-6 * self.upper.abs()
+    }
+
     fn split(self, n: usize) -> (EigenRange, EigenRange) {
         // split at the midpoint, with n eigenvalues (total) below the split
         use EigenRange::{Empty, Many, One};
@@ -225,6 +230,12 @@ impl DeterminantSearcher {
             EigenRange::One(r) => {
                 self.process_one(r);
             }
+            EigenRange::Many(r) if r.is_narrow() => {
+                // a repeated eigenvalue, orthogonalization keeps its vectors apart
+                for _ in r.low_i..r.next_i {
+                    self.process_one(OneEigenRange::new(r.lower, r.upper));
+                }
+            }
             EigenRange::Many(r) => {
                 let under = self.eigenvalues_under(r.mid_val());
                 let (rl, ru) = r.split(under);
-- 
2.43.0


From 6a792e93b4efa09d14b7f2e0456b1cd2cf972e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 20/33] fix: let forward substitution ignore what the output
 vector held

---
 src/matrix/sparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index ce0f9d6..7aa2491 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -243,7 +243,7 @@ impl LowerRowEnvelope {
 
             let dot: f64 = row_stored
                 .iter()
-                .zip(start_col..)
+                .zip(start_col..i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
@@ -275,7 +275,7 @@ impl LowerRowEnvelope {
             let sub_start_col = start_col - range.0;
             let dot: f64 = row_stored
                 .iter()
-                .zip(sub_start_col..)
+                .zip(sub_start_col..sub_i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-- 
2.43.0


From 46db48f5a1dcc73e530b71623dd4286a5b12a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 21/33] fix: keep the pairs of close and repeated eigenvalues
 apart

Inverse iteration with one fixed starting vector and a shift inside a wide
range (or on a repeated eigenvalue) settled on mixed or parallel vectors,
in the wrong order, or on none at all.
---
 src/matrix/solve/eigen.rs | 44 ++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index d6ba29e..0ee94fc 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -199,19 +199,19 @@ impl DeterminantSearcher {
         d.num_neg()
     }
 
-    fn process_one(&mut self, r: OneEigenRange) {
-        // refine an eigenrange, then send it to inverse iteration and store the result
-        // TODO improve this procedure - might need to improve guess first
+    fn process_one(&mut self, r: OneEigenRange, same: usize) {
+        // send an eigenrange to inverse iteration and store the result
+        // same is the number of pairs already found for a repeated eigenvalue
 
         // choose slice of pairs for gram-schmidt orthogonalization
         let gso = if self.eigenpairs.len() == 0 {
             None
         } else {
-            // pick the last six eigens found
-            let lower_idx = if self.eigenpairs.len() < 6 {
+            // pick the last six eigens found, and all that repeat the eigenvalue
+            let lower_idx = if self.eigenpairs.len() < 6.max(same) {
                 0
             } else {
-                self.eigenpairs.len() - 6
+                self.eigenpairs.len() - 6.max(same)
             };
 
             Some(&self.eigenpairs[lower_idx..])
@@ -225,15 +225,34 @@ impl DeterminantSearcher {
         // process_eigenrange's order should ensure eigenpairs ends up sorted by value
     }
 
+    fn refine(&self, mut r: OneEigenRange) -> OneEigenRange {
+        // halve the range of the next eigenvalue until its neighbors are far off in comparison,
+        // inverse iteration could settle between them otherwise
+        while r.upper - r.lower > 1e-3 * r.upper.abs() {
+            let mid_val = r.mid_val();
+
+            if self.eigenvalues_under(mid_val) > self.eigenpairs.len() {
+                r = OneEigenRange::new(r.lower, mid_val);
+            } else {
+                r = OneEigenRange::new(mid_val, r.upper);
+            }
+        }
+
+        r
+    }
+
     fn process_eigenrange(&mut self, r: EigenRange) {
         match r {
             EigenRange::One(r) => {
-                self.process_one(r);
+                let r = self.refine(r);
+                self.process_one(r, 0);
             }
             EigenRange::Many(r) if r.is_narrow() => {
                 // a repeated eigenvalue, orthogonalization keeps its vectors apart
-                for _ in r.low_i..r.next_i {
-                    self.process_one(OneEigenRange::new(r.lower, r.upper));
+                // (with a shift slightly under the range, as a singular matrix would drown them)
+                let lower = r.lower - 1e-5 * r.upper.abs();
+                for i in 0..(r.next_i - r.low_i) {
+                    self.process_one(OneEigenRange::new(lower, r.lower), i);
                 }
             }
             EigenRange::Many(r) => {
@@ -350,7 +369,8 @@ fn inverse_iterate(
     let mut old_rho: Option<f64> = None;
 
     // generate a random starting vector
-    let rng = fastrand::Rng::with_seed(1337);
+    // (a different one each time, the vectors of a repeated eigenvalue can't come from the same one)
+    let rng = fastrand::Rng::with_seed(1337 + eigs.map_or(0, |e| e.len()) as u64);
     let mut x: Vec<_> = std::iter::repeat_with(|| rng.f64()).take(n).collect();
 
     let mut x_bar = vec![0.0; n];
@@ -368,6 +388,10 @@ fn inverse_iterate(
     loop {
         // K x_bar(k+1) = y(k)
         direct::solve_ldl(&k_l, &k_d, &y, &mut x_bar);
+        if let Some(e) = eigs {
+            // rounding brings the known eigenvectors back when their eigenvalue is repeated
+            gram_schmidt_orthogonalize(x_bar.as_mut_slice(), m, e);
+        }
         // y_bar(k+1) = M x_bar(k+1)
         m.mul_vec(&x_bar, &mut y_bar);
 
-- 
2.43.0


From 1ce815671e0a4d706cd364bdd7a27ec96b112d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 22/33] fix: fixing both directions of a node prevails over one
 already fixed

Adding an xy constraint to a node constrained in x or y alone was dropped.
---
 src/element/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index bcf1e0b..8912ff8 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -205,6 +205,9 @@ impl ElementAssemblage {
             (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
+            (_, Constraint::XYFixed) => {
+                self.constraints[n.0] = Constraint::XYFixed;
+            }
             _ => {}
         }
     }
-- 
2.43.0


From dc159b9025344e6544658e40965b6dcd457aa015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 23/33] fix: forces added to the same node or edge act together

A second force on a node or edge replaced the first.
---
 src/element/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 8912ff8..a22042c 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -165,7 +165,10 @@ impl ElementAssemblage {
     }
 
     pub fn add_conc_force(&mut self, n: NodeId, force: Point) {
-        self.concentrated_forces.insert(n, force);
+        // forces on the same node act together
+        let zero = Point::zero(NODE_DIM);
+        let total = self.concentrated_forces.entry(n).or_insert(zero);
+        *total = *total + force;
     }
 
     pub fn dist_forces(&self) -> Vec<((NodeId, NodeId), Point)> {
@@ -176,7 +179,9 @@ impl ElementAssemblage {
     }
 
     pub fn add_dist_line_force(&mut self, n: NodeId, m: NodeId, force: Point) {
-        self.line_forces.insert((n, m), force);
+        let zero = Point::zero(NODE_DIM);
+        let total = self.line_forces.entry((n, m)).or_insert(zero);
+        *total = *total + force;
     }
 
     pub fn constraints(&self) -> Vec<(NodeId, Constraint)> {
-- 
2.43.0


From 480bed8d30eea590bf2e653bc0963090c99b141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 24/33] fix: the envelope factorization of an empty system is
 empty

---
 src/matrix/solve/direct.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index b607e5b..37b6b14 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -104,11 +104,9 @@ pub fn cholesky_envelope(a: &LowerRowEnvelope) -> LowerRowEnvelope {
 
     let mut l = LowerRowEnvelope::from_envelope(envelope);
 
-    l[(0, 0)] = a[(0, 0)].sqrt();
-
     let mut w = Vec::new();
 
-    for i in 1..a.shape().0 {
+    for i in 0..a.shape().0 {
         let (start_col, u) = a.row_stored(i);
 
         // by the contruction of LowerRowEnvelope u.len() != 0
-- 
2.43.0


From 4db2a260ebf6b860fd505248fc5da2072f200a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 25/33] fix: decide points exactly on a circle or sphere and
 flat tetrahedra correctly

---
 src/spatial/predicates.rs | 123 ++++++++++----------------------------
 1 file changed, 33 insertions(+), 90 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index c63c856..290991d 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -1,7 +1,5 @@
 use std::convert::TryInto;
 
-use crate::matrix::{ConstMatrix, Inverse};
-
 use super::Point;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -16,32 +14,27 @@ pub fn tetrahedron_dir(tet: (Point, Point, Point, Point)) -> Orient {
     // return the orientation of a tetrahedron
     let (a, b, c, d) = tet;
 
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0], a[1], a[2], 1.0, b[0], b[1], b[2], 1.0, c[0], c[1], c[2], 1.0, d[0], d[1], d[2],
-            1.0,
-        ],
-    );
-
-    match mat.determinant() {
-        Ok(val) => {
-            if val == 0.0 {
-                Orient::Zero
-            } else if val > 0.0 {
-                Orient::Positive
-            } else {
-                Orient::Negative
-            }
-        }
-        Err(_) => {
-            // error in determinant() implies det = 0
-            // TODO handle various error types
-            Orient::Zero
-        }
+    // taken relative to d the determinant is exact where the coordinates allow it
+    let val = det3(sub3(a, d), sub3(b, d), sub3(c, d));
+
+    if val == 0.0 {
+        Orient::Zero
+    } else if val > 0.0 {
+        Orient::Positive
+    } else {
+        Orient::Negative
     }
 }
 
+fn sub3(p: Point, q: Point) -> [f64; 3] {
+    [p[0] - q[0], p[1] - q[1], p[2] - q[2]]
+}
+
+fn det3(a: [f64; 3], b: [f64; 3], c: [f64; 3]) -> f64 {
+    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
+        + a[2] * (b[0] * c[1] - b[1] * c[0])
+}
+
 pub fn bary_coor(p: Point, tri: (Point, Point, Point)) -> (f64, f64, f64) {
     // returns the barymetric coordinates of a point in a triangle
     let (p1, p2, p3) = tri;
@@ -69,34 +62,13 @@ pub fn in_circle(p: Point, tri: (Point, Point, Point)) -> bool {
     // tri's points should be in counterclockwise order
     let (a, b, c) = tri;
 
-    // TODO replace with faster / more accurate 3x3 determinant
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0],
-            a[1],
-            a[0].powi(2) + a[1].powi(2),
-            1.0,
-            b[0],
-            b[1],
-            b[0].powi(2) + b[1].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[0].powi(2) + c[1].powi(2),
-            1.0,
-            p[0],
-            p[1],
-            p[0].powi(2) + p[1].powi(2),
-            1.0,
-        ],
-    );
-
-    if let Ok(val) = mat.determinant() {
-        val > 0.0
-    } else {
-        false
-    }
+    // taken relative to p the determinant is exact where the coordinates allow it
+    let row = |q: Point| {
+        let (x, y) = (q[0] - p[0], q[1] - p[1]);
+        [x, y, x.powi(2) + y.powi(2)]
+    };
+
+    det3(row(a), row(b), row(c)) > 0.0
 }
 
 #[allow(dead_code)]
@@ -104,43 +76,14 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
     // determine whether p lies within tet's circumsphere
     let (a, b, c, d) = tet;
 
-    // TODO replace with faster / more accurate 4x4 determinant
-    let mat = ConstMatrix::<25>::from_flat_array(
-        5,
-        [
-            a[0],
-            a[1],
-            a[2],
-            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
-            1.0,
-            b[0],
-            b[1],
-            b[2],
-            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[2],
-            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
-            1.0,
-            d[0],
-            d[1],
-            d[2],
-            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
-            1.0,
-            p[0],
-            p[1],
-            p[2],
-            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
-            1.0,
-        ],
-    );
-
-    if let Ok(val) = mat.determinant() {
-        val > 0.0
-    } else {
-        false
-    }
+    // taken relative to p the determinant is exact where the coordinates allow it
+    let (a, b, c, d) = (sub3(a, p), sub3(b, p), sub3(c, p), sub3(d, p));
+    let square = |q: [f64; 3]| q[0].powi(2) + q[1].powi(2) + q[2].powi(2);
+
+    let val = square(d) * det3(a, b, c) - square(c) * det3(a, b, d) + square(b) * det3(a, c, d)
+        - square(a) * det3(b, c, d);
+
+    val > 0.0
 }
 
 // a line, represented as ax + by = c
-- 
2.43.0


From 3e312a9244648c05b3226a3f51764a8be004cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 26/33] fix: count points on every side of a triangle as inside

---
 src/spatial/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index 290991d..dda54b9 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -46,7 +46,7 @@ pub fn bary_coor(p: Point, tri: (Point, Point, Point)) -> (f64, f64, f64) {
     let denom = (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3);
     let a = ((y2 - y3) * (x - x3) + (x3 - x2) * (y - y3)) / denom;
     let b = ((y3 - y1) * (x - x3) + (x1 - x3) * (y - y3)) / denom;
-    let c = 1.0 - a - b;
+    let c = ((y1 - y2) * (x - x2) + (x2 - x1) * (y - y2)) / denom;
     (a, b, c)
 }
 
-- 
2.43.0


From 985f1550425774929236dbd3f3791a46d4edeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 27/33] fix: the midpoint of points of different dimensions has
 no hidden coordinates

---
 src/spatial/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spatial/mod.rs b/src/spatial/mod.rs
index 61ea0a0..0a28375 100644
--- a/src/spatial/mod.rs
+++ b/src/spatial/mod.rs
@@ -52,12 +52,11 @@ impl Point {
 
     pub fn mid(&self, other: Point) -> Point {
         // find the midpoint between two points
-        let data = [
-            (self.data[0] + other.data[0]) / 2.0,
-            (self.data[1] + other.data[1]) / 2.0,
-            (self.data[2] + other.data[2]) / 2.0,
-        ];
         let n = min(self.n, other.n);
+        let mut data = [0.0; 3];
+        for i in 0..n {
+            data[i] = (self.data[i] + other.data[i]) / 2.0;
+        }
         Point { n, data }
     }
 
-- 
2.43.0


From b0f61721fe6ad66e12faabb81f86cb87642c881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 28/33] fix: all forces and constraints stored for one wall act
 together

---
 src/mesher/bounds.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index ec87c33..cd68471 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -150,9 +150,9 @@ pub struct PlaneBoundary {
     // also store some BC / material information
     condition: Option<Condition>,
     material: Option<Material>,
-    constraints: HashMap<Vertex, Constraint>,
+    constraints: HashMap<Vertex, Vec<Constraint>>,
     distributed_forces: HashMap<Segment, Point>,
-    distributed_constraints: HashMap<Segment, Constraint>,
+    distributed_constraints: HashMap<Segment, Vec<Constraint>>,
 }
 
 impl PlaneBoundary {
@@ -228,15 +228,29 @@ impl PlaneBoundary {
     }
 
     pub fn store_constraint(&mut self, v: Vertex, c: Constraint) {
-        self.constraints.insert(v, c);
+        self.constraints.entry(v).or_default().push(c);
     }
 
     pub fn store_distributed_force(&mut self, v: Vertex, w: Vertex, f: Point) {
-        self.distributed_forces.insert((v, w).into(), f);
+        // a wall may be named from either end, everything stored for it acts together
+        let s = Segment(v, w);
+        let s = if self.distributed_forces.contains_key(&s.rev()) {
+            s.rev()
+        } else {
+            s
+        };
+        let f = self.distributed_forces.get(&s).map_or(f, |&g| g + f);
+        self.distributed_forces.insert(s, f);
     }
 
     pub fn store_distributed_constraint(&mut self, v: Vertex, w: Vertex, c: Constraint) {
-        self.distributed_constraints.insert((v, w).into(), c);
+        let s = Segment(v, w);
+        let s = if self.distributed_constraints.contains_key(&s.rev()) {
+            s.rev()
+        } else {
+            s
+        };
+        self.distributed_constraints.entry(s).or_default().push(c);
     }
 
     pub fn is_segment<S: Into<Segment>>(&self, s: S) -> bool {
@@ -400,7 +414,7 @@ impl PlaneBoundary {
                     .insert((cur, new_point_id).into(), f);
             }
 
-            if let Some(c) = dist_c {
+            if let Some(c) = dist_c.clone() {
                 // distributed constraints are just bookkeeping
                 // they mark segments whose end points should have constraints
                 self.distributed_constraints
@@ -447,7 +461,8 @@ impl PlaneBoundary {
         self.store_segment_unchecked((m, b));
 
         if let Some(c) = dist_c {
-            self.distributed_constraints.insert((a, m).into(), c);
+            self.distributed_constraints
+                .insert((a, m).into(), c.clone());
             self.distributed_constraints.insert((m, b).into(), c);
         }
 
@@ -490,13 +505,13 @@ impl PlaneBoundary {
 
         let mut res: Vec<(Vertex, Constraint)> = Vec::new();
 
-        for (v, c) in self.constraints.iter() {
-            res.push((*v, *c));
+        for (v, cs) in self.constraints.iter() {
+            res.extend(cs.iter().map(|c| (*v, *c)));
         }
 
-        for (s, c) in self.distributed_constraints.iter() {
-            res.push((s.0, *c));
-            res.push((s.1, *c));
+        for (s, cs) in self.distributed_constraints.iter() {
+            res.extend(cs.iter().map(|c| (s.0, *c)));
+            res.extend(cs.iter().map(|c| (s.1, *c)));
         }
 
         res
-- 
2.43.0


From c00b8fb670f51cbbc2f1014907fad443f1aa36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 29/33] fix: a mesh file with text after its last section is
 refused

---
 src/file/bmsh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index efd3d85..2e83d7a 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -252,7 +252,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         )),
     )(input)?;
 
-    let (_input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
+    let (input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
         "DistForces",
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
@@ -263,6 +263,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         ))),
     )(input)?;
 
+    if !input.is_empty() {
+        return Err(FileError::parse("unexpected text after the last section"));
+    }
+
     // done with parsing, time to assemble the output
     let mut elas = header.into_elas();
 
-- 
2.43.0


From 44c0750b7ea06e187e5a84318dfb9ec717670317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 30/33] fix: nodes and forces of a mesh file have exactly two
 components

---
 src/file/bmsh.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index 2e83d7a..67dba30 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -23,6 +23,13 @@ fn desc_to_code(desc: ElementDescriptor) -> [NodeId; 3] {
     desc.into_parts()
 }
 
+fn plane_point(x: Vec<f64>) -> Point {
+    // nodes and forces of a plane model have two components
+    assert!(x.len() == 2, "expected two components");
+
+    x.try_into().expect("bad point")
+}
+
 fn monotonic_list<'a, O, F>(mut f: F) -> impl FnMut(&'a str) -> IResult<&'a str, Vec<O>>
 where
     F: Parser<&'a str, O, NomStrErr<'a>>,
@@ -215,9 +222,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     // parse the remaining segments
     let (input, nodes): (_, Vec<Point>) = section_parse(
         "Nodes",
-        monotonic_list(map(separated_list0(tag("/"), double), |x| {
-            x.try_into().expect("bad node position string")
-        })),
+        monotonic_list(map(separated_list0(tag("/"), double), plane_point)),
     )(input)?;
 
     let (input, elements): (_, Vec<Vec<usize>>) = section_parse(
@@ -246,9 +251,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map(separated_list0(tag("/"), double), plane_point),
         )),
     )(input)?;
 
@@ -257,9 +260,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map(separated_list0(tag("/"), double), plane_point),
         ))),
     )(input)?;
 
-- 
2.43.0


From 84475c5a3b67a5761fe80e45e0be707352b37b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 31/33] fix: a wrong option of the modal study is reported even
 if no mode is asked for

---
 src/main.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 140e1db..696a6dd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -229,6 +229,24 @@ fn modal<'a>(args: &clap::ArgMatches<'a>) -> Result<(), BugiError> {
         .parse()
         .map_err(|_| BugiError::arg_error("could not parse displacement scale argument"))?;
 
+    // the options are read whether or not there is a mode to draw
+    let im_size = args
+        .value_of("imsize")
+        .unwrap_or("1024")
+        .parse::<u32>()
+        .map_err(|_| BugiError::arg_error("could not parse image size argument"))?;
+
+    let show_mesh = args
+        .value_of("showmesh")
+        .unwrap_or("true")
+        .parse::<bool>()
+        .map_err(|_| BugiError::arg_error("could not parse show mesh argument"))?;
+
+    let colormap = args.value_of("colormap");
+    if !matches!(colormap, None | Some("hot") | Some("rgb")) {
+        return Err(BugiError::arg_error("unimplemented colormap name"));
+    }
+
     for (i, dfm) in dfms.iter().enumerate() {
         let mut vis = dfm.visualize(scale);
         vis.set_vals(dfm.displacement_norms());
@@ -238,25 +256,14 @@ fn modal<'a>(args: &clap::ArgMatches<'a>) -> Result<(), BugiError> {
         // recomputing the vis_options each time is pretty dumb, but ok hack for now
         // problem is that VisOptions is not Clone
 
-        let vis_options = match args.value_of("colormap") {
+        let vis_options = match colormap {
             None => ().into(),
             Some("hot") => vis_options.color_map(Box::new(|x| color::hot_map(x))),
             Some("rgb") => vis_options.color_map(Box::new(|x| color::rgb_map(x))),
             _ => return Err(BugiError::arg_error("unimplemented colormap name")),
         };
 
-        let im_size = args
-            .value_of("imsize")
-            .unwrap_or("1024")
-            .parse::<u32>()
-            .map_err(|_| BugiError::arg_error("could not parse image size argument"))?;
         let vis_options = vis_options.im_size(im_size);
-
-        let show_mesh = args
-            .value_of("showmesh")
-            .unwrap_or("true")
-            .parse::<bool>()
-            .map_err(|_| BugiError::arg_error("could not parse show mesh argument"))?;
         let vis_options = vis_options.show_mesh(show_mesh);
 
         let out_path_full = format!("out_{:02}.png", i);
-- 
2.43.0


From a1b487405fd0f58b8514412ff08dbc862ca716e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 32/33] fix: triangulating from scratch forgets the triangles
 of an earlier run

---
 src/mesher/plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 9dc98a5..c8f9c4c 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -340,6 +340,7 @@ impl PlaneTriangulation {
     pub fn gift_wrap(&mut self) {
         // gift-wrap the triangulation from scratch
         self.tris.clear();
+        self.full_tris.clear();
         self.recents.clear();
 
         let mut to_finish: HashSet<Edge> = self.bound.all_walls().map(Into::into).collect();
-- 
2.43.0


From bd3983c3d8dcf782f44005725cc8a42f89544f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 33/33] fix: start the search for every eigenpair from a
 different vector

---
 src/matrix/solve/eigen.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index 0ee94fc..f4ad0af 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -218,7 +218,13 @@ impl DeterminantSearcher {
         };
 
         // accept the middle of the resulting range for inverse iteration
-        let pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+        let pair = inverse_iterate(
+            &self.sys.k_mat,
+            &self.sys.m_mat,
+            r.mid_val(),
+            gso,
+            self.eigenpairs.len(),
+        );
 
         self.eigenpairs.push(pair);
 
@@ -345,6 +351,7 @@ fn inverse_iterate(
     m: &BiEnvelope,
     shift: f64,
     eigs: Option<&[EigenPair]>,
+    found: usize,
 ) -> EigenPair {
     // perform inverse iteration on the shifted eigenproblem
     // (K - shift * M) * v = l * M * v
@@ -352,6 +359,8 @@ fn inverse_iterate(
     // if a slice of eigenpairs eigs is provided, deflate the starting vector with respect
     // to the provided eigenvectors using gram-schmidt orthogonalization
 
+    // found is the number of pairs known in total, it picks the starting vector
+
     const TOLERANCE: f64 = 1e-6;
 
     assert_eq!(k.shape(), m.shape());
@@ -370,7 +379,7 @@ fn inverse_iterate(
 
     // generate a random starting vector
     // (a different one each time, the vectors of a repeated eigenvalue can't come from the same one)
-    let rng = fastrand::Rng::with_seed(1337 + eigs.map_or(0, |e| e.len()) as u64);
+    let rng = fastrand::Rng::with_seed(1337 + found as u64);
     let mut x: Vec<_> = std::iter::repeat_with(|| rng.f64()).take(n).collect();
 
     let mut x_bar = vec![0.0; n];
-- 
2.43.0

