From 4dac547e656a795bba3db2ddde1d6dfe1ef31a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:25 +0000
Subject: [PATCH 01/25] fix: compare lazy leaves holding -0.0 and 0.0 as equal
 in cmp_ref

---
 src/numeric/lazy_exact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..b7f2ced 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -159,7 +159,8 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            // both are finite, so they are comparable; -0.0 and 0.0 are the same value
+            return da.partial_cmp(&db).unwrap();
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
-- 
2.43.0


From 5dcb647f0ffe1eb4daaaa12770662672042478c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:25 +0000
Subject: [PATCH 02/25] fix: comparing lazy numbers beyond the double range no
 longer panics

---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index b7f2ced..3bf3e92 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -358,7 +358,7 @@ impl LazyExact {
             Kind::LeafExact(e) => {
                 if let Some(v) = e.to_f64() {
                     // accept only if round-trip is exact (dyadic)
-                    if CgarRational::from(v) == **e {
+                    if v.is_finite() && CgarRational::from(v) == **e {
                         Some(v)
                     } else {
                         None
-- 
2.43.0


From d7ec3aff2b4be0b2087b731d92adacf6917f4ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:25 +0000
Subject: [PATCH 03/25] fix: enclosure of a rational leaf that is not a double
 has a non-zero radius

---
 src/numeric/ball.rs       | 11 +++++++++++
 src/numeric/lazy_exact.rs |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..727c491 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -46,6 +46,17 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// Enclosure of a value that was rounded to the double `x` (less than one ulp away).
+    #[inline]
+    pub fn from_rounded_f64(x: f64) -> Self {
+        if !x.is_finite() {
+            return Ball::unknown();
+        }
+        Ball {
+            m: x,
+            r: Self::widen_ulp(x),
+        }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 3bf3e92..88ccf07 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -826,7 +826,12 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => match e.to_f64() {
+                // exact only if the rational round-trips through the double
+                Some(v) if v.is_finite() && CgarRational::from(v) == **e => Ball::from_f64(v),
+                Some(v) => Ball::from_rounded_f64(v),
+                None => Ball::unknown(),
+            },
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From a75e3b3910127ee627b3ca894eea0b22f4eb900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:25 +0000
Subject: [PATCH 04/25] fix: enclosure of a quotient covers the rounding of the
 reciprocal and stays unbounded for a zero divisor

---
 src/numeric/ball.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 727c491..16f1f9d 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -112,13 +112,18 @@ impl Ball {
         }
         let denom = self.m.abs() * (self.m.abs() - self.r);
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
+        // outward-bound, plus the rounding of the reciprocal itself
+        let r = self.r / denom + Self::widen_ulp(m);
         Ball { m, r }
     }
 
     #[inline]
     pub fn div(self, o: Self) -> Self {
-        self.mul(o.recip())
+        let q = o.recip();
+        if q.r.is_infinite() {
+            return Ball::unknown();
+        }
+        self.mul(q)
     }
 
     #[inline]
-- 
2.43.0


From 3e2357ae4b0f8ab439d92dcecb5e8a06eee94c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:31 +0000
Subject: [PATCH 05/25] fix: orientation determinant was zero or wrongly signed
 when the leading difference is zero or negative

---
 src/kernel/orientation.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index cdb4ffe..b8ed118 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -38,23 +38,26 @@ where
 {
     assert!(p.len() == N + 1, "need N+1 points");
     // 1. Build an NxN matrix of the difference vectors  (p[i+1] – p[0])
-    let mut m: [[T; N]; N] =
-        from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
+    let m: [[T; N]; N] = from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
 
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // running ±product of pivots
-    for k in 0..N {
-        // pivot = m[k][k];  if zero, determinant is zero
-        if m[k][k].abs() == T::zero() {
-            return T::zero();
-        }
-        for i in (k + 1)..N {
-            for j in (k + 1)..N {
-                //   m[i][j] = m[i][j] * pivot - m[i][k] * m[k][j];
-                m[i][j] = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
+    // 2. Laplace expansion: `minors[cols]` is the determinant of the columns in the
+    //    bit set `cols` over the last `cols.count_ones()` rows.
+    let full = (1usize << N) - 1;
+    let mut minors: Vec<T> = vec![T::one(); full + 1];
+    for cols in 1..=full {
+        let row = N - cols.count_ones() as usize;
+        let mut det = T::zero();
+        let mut negate = false;
+        for col in 0..N {
+            let bit = 1usize << col;
+            if cols & bit == 0 {
+                continue;
             }
+            let term = &m[row][col] * &minors[cols & !bit];
+            det = if negate { &det - &term } else { &det + &term };
+            negate = !negate;
         }
-        det = det * m[k][k].clone();
+        minors[cols] = det;
     }
-    det
+    minors[full].clone()
 }
-- 
2.43.0


From b7c993e003b4c203a68f1b8733771d8e60fbd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:49 +0000
Subject: [PATCH 06/25] fix: the first end point of a segment was reported as
 not on the segment

---
 src/kernel/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 84d6cf3..0029101 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -135,7 +135,7 @@ where
     T: PartialOrd, // needed for comparisons inside the loop
 {
     // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(p, &seg.a, &seg.b) {
+    if !are_collinear(&seg.a, &seg.b, p) {
         return false;
     }
 
-- 
2.43.0


From f16774addb8c49bf7937867c0345c98c0c165a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:16 +0000
Subject: [PATCH 07/25] fix: points on the extension of a triangle side were
 classified as on the triangle

---
 src/kernel/predicates.rs | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 0029101..53fe1df 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -27,8 +27,7 @@ use crate::geometry::util::EPS;
 use crate::geometry::vector::{Cross3, VectorOps};
 use crate::geometry::{Point2, Point3};
 use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
+use crate::numeric::scalar::Scalar;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -355,15 +354,6 @@ where
         + Mul<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
     #[inline(always)]
     fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
         let zero = TS::zero();
@@ -421,17 +411,6 @@ where
         let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
         let e2 = &(&cax * &cpy) - &(&cay * &cpx);
 
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else if N == 3 {
         // normal and degeneracy
@@ -453,15 +432,6 @@ where
         let e1 = bc.cross(&bp).dot(&n);
         let e2 = ca.cross(&cp).dot(&n);
 
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else {
         panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-- 
2.43.0


From 39f11b7395fe69c66256547ef2913254813ae4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:12 +0000
Subject: [PATCH 08/25] fix: keep border loop and vertex links live when a
 border edge is split

---
 src/mesh/core.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..0562de8 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -857,15 +857,22 @@ impl_mesh! {
                 self.half_edges[ex_he_cb].twin = he_bc;
             }
 
-            // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
+            // The border half-edges a->w, w->c take the place of a->c in its border loop
+            let linked = |h: usize| h < base_he_idx && h != he_ac;
+            let border_prev = self.half_edges[he_ac].prev;
+            let border_prev = if linked(border_prev) { border_prev } else { bhe_wc };
+            let border_next = self.half_edges[he_ac].next;
+            let border_next = if linked(border_next) { border_next } else { bhe_aw };
+
             self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
+            self.half_edges[bhe_wc].prev = bhe_aw;
+            self.half_edges[bhe_wc].next = border_next;
+            self.half_edges[border_next].prev = bhe_wc;
 
             self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+            self.half_edges[bhe_aw].next = bhe_wc;
+            self.half_edges[bhe_aw].prev = border_prev;
+            self.half_edges[border_prev].next = bhe_aw;
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -877,9 +884,9 @@ impl_mesh! {
 
             // Update representative half-edges at vertices
             self.vertices[w].half_edge.get_or_insert(he_wb);
-            self.vertices[a].half_edge.get_or_insert(he_ab);
+            self.vertices[a].half_edge = Some(he_ab); // may have been a->c
             self.vertices[b].half_edge.get_or_insert(he_bc);
-            self.vertices[c].half_edge.get_or_insert(he_cw);
+            self.vertices[c].half_edge = Some(he_cw); // may have been c->a
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From a9fd14962cf9b70d48193ee7070346e7e023a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:23 +0000
Subject: [PATCH 09/25] fix: rotate around the same vertex when rebuilding
 boundary loops

---
 src/mesh/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 0562de8..1907736 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -141,9 +141,9 @@ impl_mesh! {
                     break cand;
                 }
 
-                // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
-                if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
+                // Keep rotating around the same vertex: `cand` leaves it on the interior side
+                t = cand;
+                if !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
                 }
-- 
2.43.0


From de99875b3081c7260ea86c5a1213ecafd3c7b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:23 +0000
Subject: [PATCH 10/25] fix: skip removed and isolated vertices when listing
 boundary vertices

---
 src/mesh/topology.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..e8e206f 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -434,6 +434,7 @@ impl_mesh! {
     // /// Returns all vertex indices that lie on at least one boundary loop.
     pub fn boundary_vertices(&self) -> Vec<usize> {
         (0..self.vertices.len())
+            .filter(|&v| !self.vertices[v].removed && self.vertices[v].half_edge.is_some())
             .filter(|&v| self.is_boundary_vertex(v))
             .collect()
     }
-- 
2.43.0


From e661c59ab942125a1b7b0da346844babecfbdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:06 +0000
Subject: [PATCH 11/25] fix: do not merge live vertices into removed ones when
 removing duplicates

---
 src/mesh/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 1907736..07e4c9f 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -264,6 +264,9 @@ impl_mesh! {
         let mut spatial_groups: AHashMap<u128, Bucket> = AHashMap::new();
 
         for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
+            if vertex.removed {
+                continue; // a live vertex must not be merged into a removed one
+            }
             let hash_key = self.position_to_packed_key(&vertex.position);
             spatial_groups.entry(hash_key).or_default().push(vertex_idx);
         }
-- 
2.43.0


From 6f2ac95a9706e713bdde4793830dceafc6cc0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:42 +0000
Subject: [PATCH 12/25] fix: do not return removed vertices from vertex
 insertion

---
 src/mesh/core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 07e4c9f..042c271 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -523,7 +523,9 @@ impl_mesh! {
         // center cell first
         if let Some(bucket) = self.vertex_spatial_hash.get(&center_key) {
             for &vi in bucket {
-                if kernel::are_approximately_equal(&self.vertices[vi].position, pos) {
+                if !self.vertices[vi].removed
+                    && kernel::are_approximately_equal(&self.vertices[vi].position, pos)
+                {
                     return (vi, true);
                 }
             }
@@ -560,7 +562,9 @@ impl_mesh! {
             let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
-                    if kernel::are_equal(&self.vertices[vi].position, pos) {
+                    if !self.vertices[vi].removed
+                        && kernel::are_equal(&self.vertices[vi].position, pos)
+                    {
                         return (vi, true);
                     }
                 }
-- 
2.43.0


From 929f5854177039e572de5bc87923e41d02df3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:09 +0000
Subject: [PATCH 13/25] fix: make floating-point triangle boxes enclose the
 exact corners

---
 src/mesh/core.rs             | 17 ++++++++++-------
 src/numeric/cgar_rational.rs |  8 +++++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 042c271..4e7042c 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1419,21 +1419,24 @@ where
     T: From<f64>,
 {
     // Single allocation for all coordinates
-    let mut coords = [[0.0; N]; 3];
+    let mut lows = [[0.0; N]; 3];
+    let mut highs = [[0.0; N]; 3];
 
-    // Batch extract all coordinates
+    // Batch extract enclosures of all coordinates
+    let enclose =
+        |x: &T| x.double_interval().filter(|(lo, hi)| lo.is_finite() && hi.is_finite());
     for i in 0..N {
-        coords[0][i] = p0[i].as_f64_fast()?;
-        coords[1][i] = p1[i].as_f64_fast()?;
-        coords[2][i] = p2[i].as_f64_fast()?;
+        (lows[0][i], highs[0][i]) = enclose(&p0[i])?;
+        (lows[1][i], highs[1][i]) = enclose(&p1[i])?;
+        (lows[2][i], highs[2][i]) = enclose(&p2[i])?;
     }
 
     // Vectorized min/max computation
     let min_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].min(coords[1][i]).min(coords[2][i])));
+        std::array::from_fn(|i| T::from(lows[0][i].min(lows[1][i]).min(lows[2][i])));
 
     let max_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].max(coords[1][i]).max(coords[2][i])));
+        std::array::from_fn(|i| T::from(highs[0][i].max(highs[1][i]).max(highs[2][i])));
 
     Some(Aabb::new(
         Point::<T, N>::from_vals(min_coords),
diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 6ddea2e..1b9e3a9 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -24,6 +24,7 @@ use num_traits::ToPrimitive;
 use rug::Rational;
 
 use crate::{
+    geometry::util::{f64_next_down, f64_next_up},
     numeric::{
         cgar_f64::CgarF64,
         lazy_exact::LazyExact,
@@ -117,7 +118,12 @@ impl Scalar for CgarRational {
     }
 
     fn double_interval(&self) -> Option<(f64, f64)> {
-        Some((self.0.to_f64(), self.0.to_f64()))
+        // the conversion truncates: step outwards unless it was exact
+        let v = self.0.to_f64();
+        if Rational::from_f64(v).is_some_and(|r| r == self.0) {
+            return Some((v, v));
+        }
+        Some((f64_next_down(v), f64_next_up(v)))
     }
 
     fn ball_center_f64(&self) -> f64 {
-- 
2.43.0


From edcdcbf210fc676773b824810522bff2671cef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:33 +0000
Subject: [PATCH 14/25] fix: bound box tree entries by coordinate enclosures
 instead of approximations

---
 src/geometry/aabb_tree.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..5afc3e7 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -587,9 +587,17 @@ fn approx_from_exact<T: Scalar, const N: usize, P: SpatialElement<T, N>>(
     let mut mn = [0.0; N];
     let mut mx = [0.0; N];
     for i in 0..N {
-        // outward-safe: step one ULP past the rounded extremes
-        let lo = as_f64(&a.min[i]);
-        let hi = as_f64(&a.max[i]);
+        // outward-safe: step one ULP past the enclosing extremes
+        let lo = match a.min[i].double_interval() {
+            Some((lo, _)) if !lo.is_nan() => lo,
+            Some(_) => f64::NEG_INFINITY,
+            None => as_f64(&a.min[i]),
+        };
+        let hi = match a.max[i].double_interval() {
+            Some((_, hi)) if !hi.is_nan() => hi,
+            Some(_) => f64::INFINITY,
+            None => as_f64(&a.max[i]),
+        };
         mn[i] = f64_next_down(lo);
         mx[i] = f64_next_up(hi);
     }
-- 
2.43.0


From f0b0837cf67e42137ecaae445f98f6eef47da74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:45 +0000
Subject: [PATCH 15/25] fix: keep the border loop when collapsing a border edge

---
 src/mesh/edge_collapse.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..7b7f660 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -428,7 +428,10 @@ impl_mesh! {
         let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
 
         // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // On a border side the neighbours in the loop survive; only the edge itself goes.
+        let (gone_va, gone_au) = if left_exists  { (he_va, he_au) } else { (he_uv, he_uv) };
+        let (gone_ub, gone_bv) = if right_exists { (he_ub, he_bv) } else { (he_vu, he_vu) };
+        let remove_set = [he_uv, he_vu, gone_va, gone_au, gone_ub, gone_bv];
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -460,10 +463,16 @@ impl_mesh! {
         if left_exists {
             self.half_edges[splice_l_from].next = splice_l_to;
             self.half_edges[splice_l_to].prev = splice_l_from;
+        } else {
+            self.half_edges[he_au].next = he_va;
+            self.half_edges[he_va].prev = he_au;
         }
         if right_exists {
             self.half_edges[splice_r_from].next = splice_r_to;
             self.half_edges[splice_r_to].prev = splice_r_from;
+        } else {
+            self.half_edges[he_bv].next = he_ub;
+            self.half_edges[he_ub].prev = he_bv;
         }
 
         // ---------- 7. Mark faces removed ----------
-- 
2.43.0


From eea5303913bc4e8b59766816fa4eb7067985ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:35 +0000
Subject: [PATCH 16/25] fix: report malformed OBJ, OFF and STL files as errors

Missing or unparsable OBJ fields, face indices outside the vertex list, short OFF polygons and coordinates that are not finite used to panic or to be skipped. They are now returned as InvalidData errors.
---
 src/io/obj.rs | 30 ++++++++++++++++++++++++------
 src/io/off.rs | 17 ++++++++++++++++-
 src/io/stl.rs |  7 +++++++
 3 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..cf4bd37 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -102,17 +102,35 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
+                let mut coord = || {
+                    parts
+                        .next()
+                        .and_then(|s| s.parse::<f64>().ok())
+                        .filter(|x| x.is_finite())
+                        .ok_or_else(|| {
+                            io::Error::new(io::ErrorKind::InvalidData, "OBJ: bad vertex coordinate")
+                        })
+                };
+                let x = coord()?;
+                let y = coord()?;
+                let z = coord()?;
                 let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
                 vertex_map.push(vid);
             }
             Some("f") => {
                 // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
+                let mut index = || {
+                    parts
+                        .next()
+                        .and_then(|s| s.parse::<usize>().ok())
+                        .filter(|&i| i >= 1 && i <= vertex_map.len())
+                        .ok_or_else(|| {
+                            io::Error::new(io::ErrorKind::InvalidData, "OBJ: bad vertex index")
+                        })
+                };
+                let i = index()?;
+                let j = index()?;
+                let k = index()?;
                 // subtract 1 for zero-based
                 mesh.add_triangle(i - 1, j - 1, k - 1);
             }
diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..5856e43 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -190,6 +190,13 @@ where
             .parse()
             .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex z"))?;
 
+        if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "OFF: vertex coordinate is not finite",
+            ));
+        }
+
         // Assuming Point3::<T>::from_vals accepts f64s as in your OBJ reader
         let _vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
         // We don't need to store a map because OFF face indices are zero-based
@@ -230,11 +237,19 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            if a >= vcount || b >= vcount || c >= vcount {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: face index out of range",
+                ));
+            }
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
             for _ in 0..poly_size {
-                let _ = it.next(); // discard
+                it.next().ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "OFF: face missing index")
+                })?; // discard
             }
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 4a5b6b5..06be0ed 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -173,6 +173,13 @@ where
                     .parse()
                     .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
 
+                if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: vertex coordinate is not finite",
+                    ));
+                }
+
                 let vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
                 vertices.push(vid);
             }
-- 
2.43.0


From 8c809189b9032641c8517f39c35e8e420ceeff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:37 +0000
Subject: [PATCH 17/25] fix: surround all points by the start triangle and keep
 batch results in job order

The start triangle was scaled about the origin, so it missed points far
from it. Jobs with fewer than three points had their results moved to the
front of the batch.
---
 src/operations/triangulation/delaunay.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..62811a0 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -127,10 +127,6 @@ where
         let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
             if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
                 super_triangles.push(None);
                 continue;
             }
@@ -139,8 +135,8 @@ where
             let dx = &max[0] - &min[0];
             let dy = &max[1] - &min[1];
             let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
+            let cx = (&min[0] + &max[0]) * T::from_num_den(1, 2);
+            let cy = (&min[1] + &max[1]) * T::from_num_den(1, 2);
             let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
 
             super_triangles.push(Some((cx, cy, r)));
@@ -148,11 +144,12 @@ where
 
         // Process each job with pre-computed super-triangle
         for (job_idx, job) in jobs.iter().enumerate() {
-            if job.points_uv.len() < 3 {
-                continue;
-            }
-
             let Some((cx, cy, r)) = &super_triangles[job_idx] else {
+                // Too few points: keep the slot so results stay aligned with jobs
+                results.push(Self {
+                    points: job.points_uv.clone(),
+                    triangles: Vec::new(),
+                });
                 continue;
             };
 
@@ -165,7 +162,7 @@ where
             points.extend([
                 Point2::<T>::from_vals([
                     T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
+                    T::from(cy + &(&T::from_num_den(2, 1) * r)),
                 ]),
                 Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
                 Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
@@ -256,7 +253,7 @@ where
         let sqrt_3 = T::from(SQRT_3);
         let p_super0 = Point2::<T>::from_vals([
             T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
+            T::from(&cy + &(&T::from_num_den(2, 1) * &r)),
         ]);
         let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
         let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-- 
2.43.0


From 96155ca65fc41045b2bf1bd465ae0c8260272b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:16 +0000
Subject: [PATCH 18/25] fix: cast planar rays against the boundary edge itself

The planar point test looked at the edge following the boundary edge, and
counted both edges meeting at a vertex on the ray.
---
 src/mesh/topology.rs | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index e8e206f..ace03bc 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -744,35 +744,21 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
+        let v1 = self.half_edges[self.half_edges[he].prev].vertex;
+        let v2 = self.half_edges[he].vertex;
 
         let p1 = &self.vertices[v1].position;
         let p2 = &self.vertices[v2].position;
 
-        // Ray casting from point horizontally to the right
-        // Check if edge crosses the horizontal ray
-
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Ray casting from point horizontally to the right.
+        // An end point on the ray counts as below it, so a vertex shared by
+        // two edges is never crossed twice.
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
-        if dy.is_zero() {
-            return false;
-        }
-
         let t = &(&point[1] - &p1[1]) / &dy;
         let x_intersect = &p1[0] + &(&t * &(&p2[0] - &p1[0]));
 
-- 
2.43.0


From 08fc8c7cf53960686036a1fb5d3f01c748a30a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:22 +0000
Subject: [PATCH 19/25] fix: rays leaving a triangle corner hit the opposite
 edge

The edge parameter had the wrong sign, so real hits were dropped, and a ray
pointing away from an adjacent edge was reported as running along it.
---
 src/mesh/topology.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index ace03bc..fe4b799 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -919,13 +919,6 @@ impl_mesh! {
                         return Some(VertexRayResult::CollinearWithEdge(he));
                     }
                 }
-                if let Some(he) = self.half_edge_between(v_end, v_start) {
-                    let reverse_edge_vec = -edge_vec;
-                    let dot = geodesic_dir.dot(&reverse_edge_vec);
-                    if dot > tol {
-                        return Some(VertexRayResult::CollinearWithEdge(he));
-                    }
-                }
             }
         }
 
@@ -940,7 +933,7 @@ impl_mesh! {
 
         let inv_det = T::one() / det;
         let t = &rhs.cross(&edge_vec).dot(&face_normal) * &inv_det;
-        let u = &geodesic_dir.cross(&rhs).dot(&face_normal) * &inv_det;
+        let u = &rhs.cross(&geodesic_dir).dot(&face_normal) * &inv_det;
 
         // Validate solution
         if t <= tol || u < T::zero() || u > T::one() {
-- 
2.43.0


From dd90710a6b82fc38e290156b7ec12f25cf25df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:23 +0000
Subject: [PATCH 20/25] fix: report corner rays along an edge only in its
 forward direction

---
 src/mesh/topology.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index fe4b799..4c49874 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1057,14 +1057,6 @@ impl_mesh! {
                         return Some(VertexRayResult::CollinearWithEdge(he));
                     }
                 }
-                // Check reverse direction
-                if let Some(he) = self.half_edge_between(v_end, v_start) {
-                    let reverse_edge_vec = -edge_vec;
-                    let dot = projected_dir.dot(&reverse_edge_vec);
-                    if dot > tol {
-                        return Some(VertexRayResult::CollinearWithEdge(he));
-                    }
-                }
             }
         }
 
-- 
2.43.0


From 76fcc29ac3bd77226afca906b134915fa051518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:23 +0000
Subject: [PATCH 21/25] fix: collinear segments that do not touch have no
 intersection

---
 src/geometry/intersection.rs | 82 +++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 33 deletions(-)

diff --git a/src/geometry/intersection.rs b/src/geometry/intersection.rs
index 3344e35..86ba335 100755
--- a/src/geometry/intersection.rs
+++ b/src/geometry/intersection.rs
@@ -28,6 +28,7 @@ use crate::{
     kernel::{are_collinear, orient},
     numeric::scalar::Scalar,
 };
+use std::cmp::Ordering;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone)]
@@ -64,6 +65,40 @@ where
     }
 }
 
+/// Lexicographic order of two points.
+fn lexicographic<T: Scalar, const N: usize>(p: &Point<T, N>, q: &Point<T, N>) -> Ordering {
+    for i in 0..N {
+        match p[i].partial_cmp(&q[i]) {
+            Some(Ordering::Equal) | None => continue,
+            Some(order) => return order,
+        }
+    }
+    Ordering::Equal
+}
+
+/// Ends of the part two collinear segments have in common, if any.
+fn shared_range<'p, T: Scalar, const N: usize>(
+    [a, b]: [&'p Point<T, N>; 2],
+    [c, d]: [&'p Point<T, N>; 2],
+) -> Option<(&'p Point<T, N>, &'p Point<T, N>)> {
+    let sorted = |p, q| {
+        if lexicographic(p, q) == Ordering::Greater {
+            (q, p)
+        } else {
+            (p, q)
+        }
+    };
+    let (a, b) = sorted(a, b);
+    let (c, d) = sorted(c, d);
+    let lo = sorted(a, c).1;
+    let hi = sorted(b, d).0;
+    if lexicographic(lo, hi) == Ordering::Greater {
+        None
+    } else {
+        Some((lo, hi))
+    }
+}
+
 pub fn segment_segment_intersection_2<T>(
     seg1: &Segment2<T>,
     seg2: &Segment2<T>,
@@ -119,21 +154,14 @@ where
         }
 
         // Collinear case
-        if are_collinear(&a, &b, &c) {
+        if are_collinear(a, b, c) || are_collinear(c, d, a) {
             // Compute overlapping segment
-            let mut pts = [a, b, c, d];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
+            let (lo, hi) = match shared_range([a, b], [c, d]) {
+                Some(range) => range,
+                None => return SegmentIntersection2::None,
+            };
 
-            let s = Segment2::new(&pts[1], &pts[2]);
+            let s = Segment2::new(lo, hi);
             return SegmentIntersection2::Overlapping(s);
         }
     }
@@ -218,27 +246,15 @@ where
         (s, t)
     } else {
         // Segments are parallel — handle collinear case
-        if are_collinear(p1, p2, q1) {
-            // Sort points by x (then y then z)
-            let mut pts = [p1, p2, q1, q2];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-                    .then(
-                        p1[2]
-                            .partial_cmp(&p2[2])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
+        // (both checks are needed when one segment is a single point)
+        if are_collinear(p1, p2, q1) || are_collinear(q1, q2, p1) {
+            let (lo, hi) = match shared_range([p1, p2], [q1, q2]) {
+                Some(range) => range,
+                None => return SegmentIntersection3::None,
+            };
             return SegmentIntersection3::Overlapping(Segment3 {
-                a: pts[1].clone(),
-                b: pts[2].clone(),
+                a: lo.clone(),
+                b: hi.clone(),
             });
         }
 
-- 
2.43.0


From d69e831ca2f2b89718ce9f683b81c9e94d60a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:48:58 +0000
Subject: [PATCH 22/25] fix: keep both ends of a cut that starts at a face
 corner

When one end of an intersection segment was a corner of the face, the
other end was replaced by that corner and never became a point of the
face's subdivision job.
---
 src/mesh_processing/batching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh_processing/batching.rs b/src/mesh_processing/batching.rs
index f0d6011..ceaca08 100644
--- a/src/mesh_processing/batching.rs
+++ b/src/mesh_processing/batching.rs
@@ -455,7 +455,7 @@ where
                 let (u, v, _) =
                     barycentric_coords(&mesh.vertices[va].position, pa, pb, pc).unwrap();
                 let pa_uv = Point2::new([u, v]);
-                a_res = choose_vertex_on_face(mesh, face_id, &[va, vb], &pa_uv, pa, pb, pc)
+                a_res = choose_vertex_on_face(mesh, face_id, &[va], &pa_uv, pa, pb, pc)
                     .unwrap_or(va);
                 if !boundary_verts.contains(&a_res) {
                     push_vertex_uv_3(
@@ -475,7 +475,7 @@ where
                 let (u, v, _) =
                     barycentric_coords(&mesh.vertices[vb].position, pa, pb, pc).unwrap();
                 let pb_uv = Point2::new([u, v]);
-                b_res = choose_vertex_on_face(mesh, face_id, &[vb, va], &pb_uv, pa, pb, pc)
+                b_res = choose_vertex_on_face(mesh, face_id, &[vb], &pb_uv, pa, pb, pc)
                     .unwrap_or(vb);
                 if !boundary_verts.contains(&b_res) {
                     push_vertex_uv_3(
-- 
2.43.0


From ed5241d36d37c44ac21b08074059e071aaadbe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:02:09 +0000
Subject: [PATCH 23/25] fix: select inner triangles once and only once

The flood fill over the triangles of a face asked for another triangle on
the side it had just filled. Triangles away from the outline were never
reached, and overlapping triangles could be kept together.
---
 src/operations/triangulation/delaunay.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 62811a0..8528840 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -1487,6 +1487,15 @@ where
     // ---------- 4) flood-fill from ring edges, honoring side convention ----------
     let mut accepted: FastSet<usize> = FastSet::default();
     let mut seen_edge_side: FastSet<(Edge, i8)> = FastSet::default();
+    // sides of edges taken by accepted triangles
+    let mut used_sides: FastSet<(Edge, i8)> = FastSet::default();
+    let sides_of = |t: Triangle| {
+        [(t.0, t.1, t.2), (t.1, t.2, t.0), (t.2, t.0, t.1)].map(|(i, j, k)| {
+            let (e, dir) = canon(i, j);
+            let s = orient2d(&pts[i], &pts[j], &pts[k]);
+            (e, if s.is_positive() { dir } else { -dir })
+        })
+    };
     let mut q = VecDeque::<(usize, usize, i8)>::new();
 
     for i in 0..ring.len() {
@@ -1514,6 +1523,9 @@ where
             if side != wanted_canon || accepted.contains(&ti) {
                 continue;
             }
+            if sides_of(dt_tris[ti]).iter().any(|s| used_sides.contains(s)) {
+                continue;
+            }
             if best.as_ref().map_or(true, |&(_, ref s)| *score > *s) {
                 best = Some((ti, score.clone()));
             }
@@ -1524,8 +1536,9 @@ where
 
         // accept it
         accepted.insert(ti);
+        used_sides.extend(sides_of(dt_tris[ti]));
 
-        // push its other two edges with **directed** wanted side = orient(i->j, k)
+        // push its other two edges with **directed** wanted side opposite to orient(i->j, k)
         let t = dt_tris[ti];
         for (i, j, k) in [(t.0, t.1, t.2), (t.1, t.2, t.0), (t.2, t.0, t.1)] {
             // skip the edge we used to reach this tri
@@ -1542,7 +1555,7 @@ where
                 0
             };
             if side_dir != 0 {
-                q.push_back((i, j, side_dir));
+                q.push_back((i, j, -side_dir));
             }
         }
     }
-- 
2.43.0


From 1799c072cf323d56b3d9afdaa6dbf4eeab25d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:18:45 +0000
Subject: [PATCH 24/25] fix: intersect edges only where both of them reach

---
 src/geometry/edge_edge_intersect.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/edge_edge_intersect.rs b/src/geometry/edge_edge_intersect.rs
index ed0bdd2..42173c8 100644
--- a/src/geometry/edge_edge_intersect.rs
+++ b/src/geometry/edge_edge_intersect.rs
@@ -44,13 +44,16 @@ where
         return None; // Parallel lines
     }
 
-    let d2 = (p1[0].clone() - p3[0].clone()) * (p4[1].clone() - p3[1].clone())
-        - (p1[1].clone() - p3[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d2 = (p3[0].clone() - p1[0].clone()) * (p4[1].clone() - p3[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d3 = (p3[0].clone() - p1[0].clone()) * (p2[1].clone() - p1[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p2[0].clone() - p1[0].clone());
 
     let t = d2 / d1.clone();
+    let u = d3 / d1;
 
     // Check if intersection is within both line segments
-    if t >= T::zero() && t <= T::one() {
+    if t >= T::zero() && t <= T::one() && u >= T::zero() && u <= T::one() {
         let x = p1[0].clone() + t.clone() * (p2[0].clone() - p1[0].clone());
         let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());
         Some(Point::<T, N>::from_vals(from_fn(|i| match i {
-- 
2.43.0


From 570aebf1bca437508bc2d8061ae7935676639d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:18:45 +0000
Subject: [PATCH 25/25] fix: measure the edge parameter over every coordinate

---
 src/geometry/canonical_edge.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/canonical_edge.rs b/src/geometry/canonical_edge.rs
index ea7fa15..eded1ff 100644
--- a/src/geometry/canonical_edge.rs
+++ b/src/geometry/canonical_edge.rs
@@ -56,13 +56,17 @@ impl<T: Scalar, const N: usize> CanonicalEdge<T, N> {
         let edge_vec = &self.b - &self.a;
         let point_vec = p - &self.a;
 
-        let edge_len2 = &(&edge_vec[0] * &edge_vec[0]) + &(&edge_vec[1] * &edge_vec[1]);
+        let mut edge_len2 = T::zero();
+        let mut dot = T::zero();
+        for i in 0..N {
+            edge_len2 = &edge_len2 + &(&edge_vec[i] * &edge_vec[i]);
+            dot = &dot + &(&point_vec[i] * &edge_vec[i]);
+        }
 
         if edge_len2.is_zero() {
             return T::zero();
         }
 
-        let dot = &(&point_vec[0] * &edge_vec[0]) + &(&point_vec[1] * &edge_vec[1]);
         dot / edge_len2
     }
 }
-- 
2.43.0

