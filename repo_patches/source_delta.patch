From 052d604f8594e6a19237049671f293d439f56dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 1/9] fix: merge the leaders of connected subgraphs, not the
 aliases

Overwriting graph_alias[g_high] forgot an earlier alias of g_high and split a
connected component, e.g. for adjacency [[0], [1], [2, 0, 1]].
---
 trellis/src/disjoint.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..93bdeea 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,15 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+// Follows aliases to the graph that stands for all graphs known to be connected to 'g'.
+fn find_leader(graph_alias: &[u32], g: u32) -> u32 {
+    let mut leader = g;
+    while graph_alias[leader as usize] != leader {
+        leader = graph_alias[leader as usize];
+    }
+    leader
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,8 +70,12 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
-                    let g_low = g_from.min(g_to);
-                    let g_high = g_from.max(g_to);
+                    // Either graph may already be an alias, so connect their leaders; overwriting
+                    // the alias of a non-leader would forget an earlier connection.
+                    let leader_from = find_leader(&graph_alias, g_from);
+                    let leader_to = find_leader(&graph_alias, g_to);
+                    let g_low = leader_from.min(leader_to);
+                    let g_high = leader_from.max(leader_to);
                     graph_alias[g_high as usize] = g_low;
                     debug!("v{from} (in g{g_from}) --> v{to} (in g{g_to}), in different graphs. assigning g{g_high} --> g{g_low}", from=from, to=to, g_from=g_from, g_to=g_to, g_high=g_high, g_low=g_low);
                 }
-- 
2.43.0


From e4460de8e2d285ae0765c76abc8e677c1d93ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 2/9] fix: report the right keys in
 RampTable::iter_pairs_manual

Keys were off by two, and a trailing unowned value made the iterator panic.
---
 trellis/src/ramp_table.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..003c025 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -201,14 +201,15 @@ impl<T> RampTable<T> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        // The values after the last key belong to no key.
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
                         self.current_key += 1;
                     }
-                    // TODO: current_key is not correct yet
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    // current_key is the next key to read; this value is for the one before it.
+                    Some((self.current_key - 1, value))
                 } else {
                     None
                 }
@@ -217,7 +218,7 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
+            index_iter: self.index[1..].iter(),
             current_key: 0,
             current_index: 0,
             num_values: 0,
-- 
2.43.0


From 62e3e44b7005e856ac97167453270ca35b5e1b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 3/9] fix: sift the greater child up in PQ::remove

Removing from the heap [10, 5, 9, 1, 2] moved a lesser child to the root, and
the consistency check panicked.
---
 trellis/src/priority_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..937394f 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -63,12 +63,14 @@ impl<T: Ord> PQ<T> {
         let mut i: usize = 0;
         loop {
             let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
+            let right = right(i);
+            // Only the greater child may move up, or it would not be ordered with its sibling.
+            let right_is_greater = right < self.pq.len() && self.pq[left] < self.pq[right];
+            if left < self.pq.len() && self.pq[i] < self.pq[left] && !right_is_greater {
                 self.pq.swap(i, left);
                 i = left;
                 continue;
             }
-            let right = right(i);
             if right < self.pq.len() && self.pq[i] < self.pq[right] {
                 self.pq.swap(i, right);
                 i = right;
-- 
2.43.0


From d5422794c38a99c4ab64a2835654995ce7f8d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 4/9] fix: make find_shortest_path terminate on cycles and
 trace its path back

The walk back over the paths compared a path index with the start vertex, so
any start vertex other than 0 was wrong or panicked; the search followed
cycles forever; and the heap did not choose between two children when sifting
down, so a heavier path could be preferred.
---
 trellis/src/ortho/shortest_path.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..9953075 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -1,4 +1,6 @@
 
+use std::collections::HashSet;
+
 type Weight = i32;
 
 // Each entry in the priority queue represents a path.
@@ -53,12 +55,16 @@ impl FindPathState {
         while i < self.pq.len() {
             let i_key = &self.pq[i];
             let left = left(i);
-            if left < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[left]) {
+            let right = right(i);
+            // Only the lesser child may move up, or it would not be ordered with its sibling.
+            let right_is_less =
+                right < self.pq.len() && Self::pq_is_ordered(&self.pq[right], &self.pq[left]);
+            if left < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[left]) && !right_is_less
+            {
                 self.pq.swap(i, left);
                 i = left;
                 continue;
             }
-            let right = right(i);
             if right < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[right]) {
                 self.pq.swap(i, right);
                 i = right;
@@ -115,6 +121,9 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     let mut best_path: Option<BestPath> = None;
 
+    // vertices to which a shortest path has been found
+    let mut settled: HashSet<V> = HashSet::new();
+
     loop {
         // iterate on search
         // the entry at pq[0] is the shortest path
@@ -126,6 +135,13 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let current_vert = state.paths[current_path.path as usize].vert;
         let current_path_weight = current_path.weight;
 
+        // Paths leave the queue in order of increasing weight, so the first one to reach a vertex
+        // is a shortest one. Extending any other path to it is useless, and would never end if
+        // the graph has a cycle.
+        if !settled.insert(current_vert) {
+            continue;
+        }
+
         // Has this path reached the goal vertex?
         if current_vert == to_vert {
             if best_path.as_ref().map(move |best| best.weight > current_path_weight).unwrap_or(true) {
@@ -153,10 +169,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi < 0 {
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From d02193d8c81ea6588c8b9afc9718f8e79c144015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 5/9] fix: set the length of a cloned VecOption

The clone reported length zero and leaked every cloned item.
---
 trellis/src/vec_option.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..5dff6fa 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -49,6 +49,10 @@ impl<T: Clone> Clone for VecOption<T> {
                 }
             }
         }
+        // The absent items are uninitialized in the clone, too.
+        unsafe {
+            clone_vec.set_len(clone_capacity);
+        }
         Self {
             vec: clone_vec,
             present: self.present.clone(),
-- 
2.43.0


From d3dadda42c0176cd0a301de75a968ba102effa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 6/9] fix: do not drop items twice if dropping one of them
 panics

---
 trellis/src/vec_option.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 5dff6fa..685986d 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -755,6 +755,11 @@ impl<'a, T> Iterator for IterRunsMut<'a, T> {
 
 impl<T> Drop for VecOption<T> {
     fn drop(&mut self) {
+        // The items are dropped here, so the vector must not drop them, not even if
+        // dropping one of them panics.
+        unsafe {
+            self.vec.set_len(0);
+        }
         if core::mem::needs_drop::<T>() {
             for (i, value) in self.present.iter().enumerate() {
                 if value {
@@ -764,9 +769,6 @@ impl<T> Drop for VecOption<T> {
                 }
             }
         }
-        unsafe {
-            self.vec.set_len(0);
-        }
     }
 }
 
-- 
2.43.0


From 4cabe232038536ee902233f8c9588e26702f10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 7/9] fix: do not count below zero in compVis

The first vertex has no earlier vertices, and the second has none but its
predecessor; both made the usize counter underflow, so visibility() always
panicked.
---
 trellis/src/pathplan/visibility.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..ed20403 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,13 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
+        let end;
         if previ == i as i32 - 1 {
-            j = i - 2;
+            end = i - 1;
         } else {
-            j = i - 1;
+            end = i;
         }
-        loop {
+        for j in (0..end).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +273,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From 3dca3a2b5291d05234e2e40246094408854be150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:25 +0000
Subject: [PATCH 8/9] fix: a half-turn elliptic wedge is not extended by a
 whole turn when rounding puts it past PI

---
 trellis/src/common/ellipse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index c4847a1..8ceba56 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -235,7 +235,8 @@ fn initEllipse(
 
     // the preceding correction fails if we have exactly eta2 - eta1 = 2*PI
     // it reduces the interval to zero length
-    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < PI) {
+    // (a half turn, which rounding may put on either side of PI, must stay as it is)
+    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < 0.5 * PI) {
         ep.eta2 += TWOPI;
     }
 
-- 
2.43.0


From f5aec24d524461454a1eb421fe123fe4596a72a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 9/9] fix: round the greatest float below a half down, not up

---
 trellis/src/common/arith.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/trellis/src/common/arith.rs b/trellis/src/common/arith.rs
index c72dffd..c098237 100644
--- a/trellis/src/common/arith.rs
+++ b/trellis/src/common/arith.rs
@@ -42,11 +42,7 @@ pub const M_PI: f64 = core::f64::consts::PI;
 pub const SQRT2: f64 = core::f64::consts::SQRT_2;
 
 pub fn ROUND(f: f64) -> i32 {
-    if f >= 0.0 {
-        (f + 0.5) as i32
-    } else {
-        (f - 0.5) as i32
-    }
+    f.round() as i32
 }
 pub fn RADIANS(deg: f64) -> f64 {
     deg / 180.0 * M_PI
-- 
2.43.0

