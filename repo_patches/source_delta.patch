From e098e1178d4fcfaf7b29202686da5bc7e69e6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 01/19] fix: keep the matching perfect when the crossed
 exchange is the cheapest of three

optimize_two_matching wrote vertex v2 into both edges and dropped v3 when
cost_2 < cost_1 < cost_0.
---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From 7d555eaa38309bd5d5ae17fea747b45ba046808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 02/19] fix: bound exact search by the spanning tree weight,
 not by twice that weight

The MST adjacency list holds every edge in both directions, so
directed_edge_weight() is twice the weight of the tree and no lower bound:
v5, v6, the threaded solver and the MPI solvers pruned optimal tours.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From a1b02b9c214d39d8f2fb389ffe401fbff15b96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 03/19] fix: make the nearest-neighbour bound of v4 a lower
 bound on every completion

Only neighbours with a larger index (and no edge back to the start of the
tour) were considered, so the bound could exceed the true remaining cost and
optimal tours were pruned.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..608ca1d 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -325,10 +325,10 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
-            // Also we just connect within
-            if subtour.contains(&j) {
+            // Also we just connect within, or back to the start of the tour
+            if j == i || (subtour.contains(&j) && j != subtour[0]) {
                 continue;
             }
 
-- 
2.43.0


From 0ac19ee8fd83f1924f7152947ad6c998bce4dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 04/19] fix: do not undo prefix costs by subtraction in the
 exact solvers

current_cost += c ... current_cost -= c does not restore the previous value
in floating point, so after an edge of large cost all later siblings were
explored with a wrong prefix cost and a wrong optimum could be reported.
---
 src/solvers/exact.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 608ca1d..c9d9e35 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -132,13 +132,12 @@ fn _second_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // rec call
         _second_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
 
         // remove
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -203,7 +202,7 @@ fn _third_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // HERE IS THE BIG DIFFERENCE TO [`_second_improved_solver_rec`]!
         if current_cost <= result.0 {
@@ -211,7 +210,6 @@ fn _third_improved_solver_rec<T>(
         }
         // This was it. This is the pruning
 
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -293,7 +291,7 @@ fn _fourth_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -303,7 +301,6 @@ fn _fourth_improved_solver_rec<T>(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -404,7 +401,7 @@ fn _fifth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -416,7 +413,6 @@ fn _fifth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -502,7 +498,7 @@ fn _sixth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -526,7 +522,6 @@ fn _sixth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -1015,7 +1010,7 @@ fn _mpi_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -1040,7 +1035,6 @@ fn _mpi_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
-- 
2.43.0


From 9a033c2c0d06c7d21204362d4626fc367001e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 05/19] fix: evaluate the identity permutation in v0 and v1

next_permutation never yields the starting permutation, so v1 reported an
infinite cost for two cities (the only arrangement is the identity).
---
 src/solvers/exact.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index c9d9e35..2bbec42 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -27,7 +27,8 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    // the identity is not produced by `next_permutation`
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation) {
@@ -51,7 +52,8 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    // the identity is not produced by `next_permutation`
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation[1..]) {
-- 
2.43.0


From 5c6c7ff10d382691eedccf634da8f7d28ff378a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 06/19] fix: solve instances smaller than the prefix
 sequentially in the threaded solver

With one CPU and two cities there is no valid prefix of length three, so no
tour was found and an infinite cost was reported.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 2bbec42..06cc1fb 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -643,8 +643,8 @@ fn threaded_solver_generic(
             .into(),
     };
 
-    // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // if (number of threads >= n), or if there are no prefixes to distribute, we do seq
+    if number_of_threads >= graph_matrix.dim() || graph_matrix.dim() < prefix_length {
         return fifth_improved_solver(graph_matrix);
     }
 
-- 
2.43.0


From 0327048feb6fb3a7eab7b89a82efe34e39fd6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 07/19] fix: do not count loops and dangling edges towards full
 connectivity

A vertex with a loop (or an edge to a vertex that does not exist) in place of
an edge to another vertex was accepted as fully connected, so incomplete
graphs passed the precondition check or crashed is_undirected.
---
 src/preconditions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..3ac4207 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,11 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter().enumerate().all(|(i, v)| {
+        v.degree() == n - 1
+            // neither loops nor edges to unknown vertices connect to another vertex of the graph
+            && v.iter().all(|edge| edge.to < n && edge.to != i)
+    })
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
-- 
2.43.0


From 63b25bc63b0edbd121ee2835be67f115821000e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 08/19] fix: use the only edge twice in the 1-tree of two
 vertices

The second edge stayed at its infinite initial value, so the 1-tree lower
bound of a two-city instance was infinite, above the cost of its only tour.
---
 src/one_tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..15338fc 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -60,6 +60,11 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         }
     }
 
+    // with only one neighbour, the tour uses the edge to it in both directions
+    if graph.dim() == 2 {
+        snd_min_edg = fst_min_edg;
+    }
+
     // add the two edges to the mst, making it a 1-tree
     mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
     mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
-- 
2.43.0


From f6e5a1053f5f607c2038f248d0c50d1401d640b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 09/19] fix: update the edge store of the multi-threaded Prim
 without writing through shared references

The threads wrote through a pointer derived from &self while other threads
read through self[..]: a data race and undefined behaviour (reported by Miri).
---
 src/mst.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/mst.rs b/src/mst.rs
index 7b74adc..a495fa7 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -348,25 +348,15 @@ impl FindMinCostEdge for MultiThreadedVecWrapper {
     fn update_minimal_cost(&mut self, from: usize, new_neighbours: NAMatrixRowView) {
         //self[to] = f64::min(self[to], edge.cost);
         let dim = new_neighbours.shape().1;
-        //for (to, &cost) in new_neighbours.par_iter().enumerate()
-        (0..dim).into_par_iter().for_each(|to| {
-            let neighbour_prt = new_neighbours.as_ptr() as *mut f64;
-            // safety: the data exists, we do not leave the range
-            // of the underlying NAMatrix (we add at most dim*(dim-1),
-            // and the pointer to the row has at most offset dim-1 from the cell at index (0,0).
-            // Therefore we stay within an offset of (dim*dim)-1
-            let cost = unsafe { *neighbour_prt.add(dim * to) };
-            let to_dist_ptr = self.as_ptr() as *mut (Edge, bool);
-            if cost < self[to].0.cost {
-                // safety:
-                //  - no race conditions, since the parallel iterator visits each value of to
-                //    exactly once
-                //  - we do not exeed the length of the vector self.0
-                unsafe {
-                    (*to_dist_ptr.add(to)).0 = Edge { to: from, cost };
+        self.0[..dim]
+            .par_iter_mut()
+            .enumerate()
+            .for_each(|(to, (edge, _used_in_mst))| {
+                let cost = new_neighbours[to];
+                if cost < edge.cost {
+                    *edge = Edge { to: from, cost };
                 }
-            }
-        });
+            });
     }
 
     fn find_edge_with_minimal_cost(&self) -> (usize, Edge) {
-- 
2.43.0


From ac1918964ed75dce914cb855a2eb7517dba60658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 10/19] fix: write matching edges through a mutable pointer
 when filling the multigraph

The parallel branch wrote through a pointer obtained from a shared slice,
which is undefined behaviour (reported by Miri).
---
 src/solvers/approximate/christofides.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solvers/approximate/christofides.rs b/src/solvers/approximate/christofides.rs
index 785be52..9be760c 100644
--- a/src/solvers/approximate/christofides.rs
+++ b/src/solvers/approximate/christofides.rs
@@ -1,4 +1,6 @@
 //! This module contains the Christofides algorithm.
+use std::sync::atomic::{AtomicPtr, Ordering};
+
 use nalgebra::DMatrix;
 use rayon::prelude::*;
 
@@ -288,14 +290,14 @@ fn fill_multigraph_with_mst_and_matching<const MODE: usize>(
         }),
         PAR_COMPUTATION => {
             let dim = multigraph.shape().0;
-            // cannot directly create a *mut pointer,
+            // cannot directly share a *mut pointer,
             // since *mut pointers do not implement std::marker::Sync
-            let multigraph_slice = multigraph.as_slice();
+            let multigraph_prt = AtomicPtr::new(multigraph.as_mut_slice().as_mut_ptr());
             // safety: each cell is only written to once,
             // since the matching contains each vertex at most once
             unsafe {
                 matching.into_par_iter().for_each(|[i, j]| {
-                    let multigraph_prt = multigraph_slice.as_ptr() as *mut (f64, usize);
+                    let multigraph_prt = multigraph_prt.load(Ordering::Relaxed);
                     //multigraph[edge].1 += 1;
                     (*multigraph_prt.add(j * dim + i)).1 += 1;
                     //multigraph[(j, i)].1 += 1;
-- 
2.43.0


From eddc6baf79fe6825393cae4c020bc015d65fd2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 11/19] fix: solve sequentially in the MPI exact solvers when
 there is nothing to distribute

With a single process there is no worker, and with at most three cities there
is no (valid) prefix to hand out: the solvers reported an infinite cost or
panicked.
---
 src/solvers/exact.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 06cc1fb..ab5c264 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -789,6 +789,11 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without workers, or without prefixes to distribute, every process solves sequentially
+    if world.size() == 1 || graph_matrix.dim() <= prefix_length {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1111,6 +1116,11 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without workers, or without prefixes to distribute, every process solves sequentially
+    if world.size() == 1 || graph_matrix.dim() <= 3 {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
-- 
2.43.0


From ca7dc857eb89e00b2f41ff3fe16bc8d4d51f5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 12/19] fix: give MPI workers without a tour of their own room
 for the winning path

A worker that found no tour joined the broadcast of the winning path with an
empty buffer (MPI_ERR_TRUNCATE or an empty result).
---
 src/solvers/exact.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index ab5c264..0faa01d 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -810,6 +810,8 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     root.broadcast_into(&mut winner);
 
     // Now the winner can broadcast to everyone the path
+    // (workers that found no tour need room to receive it)
+    winner_path.resize(graph_matrix.dim(), 0);
     let winner_process = world.process_at_rank(winner.1);
     winner_process.broadcast_into(&mut winner_path[..]);
 
@@ -1137,6 +1139,8 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     root.broadcast_into(&mut winner);
 
     // Now the winner can broadcast to everyone the path
+    // (workers that found no tour need room to receive it)
+    winner_path.resize(graph_matrix.dim(), 0);
     let winner_process = world.process_at_rank(winner.1);
     winner_process.broadcast_into(&mut winner_path[..]);
 
-- 
2.43.0


From 7f95f30f0bd18a65d42b0388feada9878f0a793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 13/19] fix: process every prefix in the static MPI solver

Each worker skipped the first and the last prefix of its chunk and nobody
processed the remainder, so with many workers whole tours were never looked
at (wrong or infinite result); with at least dim^3 workers it panicked.
---
 src/solvers/exact.rs | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 0faa01d..714031d 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -891,24 +891,37 @@ fn static_mpi_solver_generic_nonroot(
     let root = world.process_at_rank(0);
 
     // -1 because we subtract the root rank
-    let (min_digits, max_digits) = split_up_b_ary_number_into_n_chunks(
-        prefix_length,
-        graph_matrix.dim(),
-        (size as usize) - 1,
-        (rank as usize) - 1,
-    );
+    // There cannot be more chunks than prefixes, the processes without a chunk have nothing to do
+    let dim = graph_matrix.dim();
+    let number_of_chunks = ((size as usize) - 1).min(dim.pow(prefix_length as u32) - 1);
+    let chunk = (rank as usize) - 1;
+    let (first_prefix, last_prefix) = if chunk < number_of_chunks {
+        let (min_digits, max_digits) =
+            split_up_b_ary_number_into_n_chunks(prefix_length, dim, number_of_chunks, chunk);
+        if chunk + 1 == number_of_chunks {
+            // the last chunk also contains the prefixes that could not be split up evenly
+            (Some(min_digits), vec![dim - 1; prefix_length])
+        } else {
+            (Some(min_digits), max_digits)
+        }
+    } else {
+        (None, Vec::new())
+    };
+    // both the first and the last prefix belong to our chunk
+    let prefixes = std::iter::successors(first_prefix, |prefix| {
+        if *prefix == last_prefix {
+            None
+        } else {
+            get_next_value(&mut prefix.clone(), dim)
+        }
+    });
+
     let mut local_solution = (f64::INFINITY, Vec::new());
     let mut global_best_cost = f64::INFINITY;
 
-    let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-        // early return if we have finished our chunk
-        if next_value == max_digits {
-            break;
-        }
-
+    for next_value in prefixes {
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
         if !is_unique {
-- 
2.43.0


From 2fec48552fdcc494dcc576354bdf3404b46b1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 14/19] fix: allow more MPI processes than cities in nearest
 neighbour

Processes with an empty chunk of start nodes panicked, aborting the job.
---
 src/solvers/approximate/nearest_neighbour.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 46dc1b0..b143aed 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -147,7 +147,8 @@ pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
     let local_solution = (start_node..end_node)
         .map(|k| single_nearest_neighbour(graph_matrix, k.try_into().unwrap()))
         .min_by_key(|&(distance, _)| OrderedFloat(distance))
-        .unwrap();
+        // with more processes than nodes, some chunks are empty
+        .unwrap_or_else(|| (f64::INFINITY, vec![0; graph_matrix.dim()]));
 
     // ALLREDUCE all solutions
     // If two solutions have same cost, we choose lower rank
-- 
2.43.0


From 24f63df2ac90bce1e306d7ac39fd0bf27012ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 15/19] fix: allow more MPI processes than cities in the 1-tree
 lower bound

Processes without a special vertex panicked, aborting the job.
---
 src/one_tree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 15338fc..bf8e8f8 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -123,6 +123,11 @@ fn one_tree_lower_bound_par(graph: &NAMatrix) -> f64 {
 /// if the graph is empty.
 #[cfg(feature = "mpi")]
 fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
+    assert!(
+        graph.dim() > 0,
+        "Cannot compute the 1-tree lower bound of the empty graph"
+    );
+
     fn one_tree_lower_bound_mpi_with_world(graph: &NAMatrix, world: SystemCommunicator) -> f64 {
         let rank = world.rank() as usize;
         let size = world.size() as usize;
@@ -136,7 +141,8 @@ fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
                 x.partial_cmp(y)
                     .expect("Tried to compare NaN value. Your data seems currupt.")
             })
-            .expect("Cannot compute the 1-tree lower bound of the empty graph");
+            // with more processes than vertices, some processes have nothing to contribute
+            .unwrap_or(f64::NEG_INFINITY);
 
         let mut global_lower_bound = f64::INFINITY;
         if rank as mpi::topology::Rank == ROOT_RANK {
-- 
2.43.0


From 4db7f656c00b89416b9d580ab3ccfe618c8bd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 16/19] fix: initialize MPI once when a lower bound is computed
 after an approximation

approx ... -p mpi -l one-tree initialized MPI a second time after it had been
finalized and panicked; non-root Christofides processes left before the
collective reduction of the bound.
---
 src/lib.rs                                   | 24 +++++++++++++++-----
 src/solvers/approximate/nearest_neighbour.rs |  7 +++---
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4ffa1..caaaf82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,13 @@ fn approx_run(
 ) -> Result<(), Box<dyn Error>> {
     let tsp_instance = get_tsp_instance(input_file.clone())?;
 
+    // MPI can only be initialized once: it has to stay available for the lower bound
+    #[cfg(feature = "mpi")]
+    let _universe = match parallelism {
+        Parallelism::MPI => mpi::initialize(),
+        _ => None,
+    };
+
     match algorithm {
         ApproxAlgorithm::Christofides => {
             let graph = (&tsp_instance.graph).into();
@@ -104,8 +111,7 @@ fn approx_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let root_process = world.process_at_rank(0);
 
@@ -122,8 +128,13 @@ fn approx_run(
                             &graph,
                         );
                         mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
-                        // non-root process is done here
-                        return Ok(());
+                        // non-root process is done here, apart from the lower bound
+                        return match lower_bound {
+                            Some(lower_bound_algo) => {
+                                lower_bound_run(lower_bound_algo, input_file, parallelism)
+                            }
+                            None => Ok(()),
+                        };
                     }
                 }
             };
@@ -183,8 +194,9 @@ fn lower_bound_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    // MPI may already have been initialized by the caller
+                    let _universe = mpi::initialize();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let result =
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index b143aed..372e345 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -6,7 +6,7 @@ use rayon::iter::ParallelIterator;
 use rayon::prelude::IntoParallelIterator;
 
 #[cfg(feature = "mpi")]
-use mpi::{collective::UserOperation, traits::*};
+use mpi::{collective::UserOperation, topology::SystemCommunicator, traits::*};
 
 use crate::{
     computation_mode::{panic_on_invaid_mode, PAR_COMPUTATION, SEQ_COMPUTATION},
@@ -126,8 +126,9 @@ pub fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> Solution
 /// Now every node knows the global minimum and can successfully return it.
 #[cfg(feature = "mpi")]
 pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // MPI may already have been initialized by the caller
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let size = world.size();
     let rank = world.rank();
 
-- 
2.43.0


From 4a837227981b68975ddd152a35b3f192e49ab2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 17/19] fix: scale the tolerance of the triangle inequality
 check with the costs

Collinear points with coordinates around 1e7 violate the inequality by more
than the absolute 1e-10 through rounding alone, so metric graphs were called
non-metric (and Christofides panicked in debug builds).
---
 src/datastructures/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datastructures/mod.rs b/src/datastructures/mod.rs
index 8095aed..59bc77d 100644
--- a/src/datastructures/mod.rs
+++ b/src/datastructures/mod.rs
@@ -60,7 +60,8 @@ pub trait AdjacencyMatrix {
                     // sometimes due to rounding errors a metric graph would be rejected.
                     // By adding 1e-10 to indirect_costs,
                     // small rounding errors are being ignored
-                    if direct_cost > indirect_cost + 1e-10 {
+                    // (rounding errors grow with the costs, so the tolerance has to as well)
+                    if direct_cost > indirect_cost + 1e-10 * indirect_cost.max(1.0) {
                         return false;
                     }
                 }
-- 
2.43.0


From 0deb1060b2518685a4266fd47fa67b9e65968f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 18/19] fix: priority-queue Prim connected vertices to the
 wrong tree vertex

push_increase returns the offered priority when it is no improvement, so
'cost <= old_cost' held for every vertex and the stored connection was
overwritten while the cost stayed that of the better edge.
---
 src/mst.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mst.rs b/src/mst.rs
index a495fa7..c7883c1 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -243,7 +243,8 @@ impl FindMinCostEdge for VerticesInPriorityQueue {
             let Reverse(OrderedFloat(old_cost)) = self.cost_queue
             .push_increase(to, Reverse(OrderedFloat(cost)))
             .unwrap_or_else(|| panic!("Every unused unused vertex shall be contained in the queue from the beginning. Missing vertex: {}", to));
-            if cost <= old_cost {
+            // `push_increase` hands `cost` back if it is no improvement over the known connection
+            if cost < old_cost {
                 self.connection_to_mst[to] = from;
             }
         }
-- 
2.43.0


From dc5be6996815c35a14c0765c47e5fe359f0f7aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 19/19] fix: write costs as float literals in generated Rust
 code

---
 utils/tsp_logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/tsp_logic.py b/utils/tsp_logic.py
index 9f72fa1..bf77217 100644
--- a/utils/tsp_logic.py
+++ b/utils/tsp_logic.py
@@ -28,7 +28,7 @@ def convert_to_rust_code(cost_matrix):
         edges = []
         for j in range(n):
             if i != j and cost_matrix[i][j] != 0.0:
-                edges.append(f"Edge {{ to: {j}, cost: {cost_matrix[i][j]} }}")
+                edges.append(f"Edge {{ to: {j}, cost: {float(cost_matrix[i][j])} }}")
         vertices.append(f"Vertex {{ edges: vec![{', '.join(edges)}] }}")
     rust_code = f"let graph = Graph {{vertices: vec![{','.join(vertices)}]}};"
     return rust_code
-- 
2.43.0

