From 3af95066d5ce073eb355a28d69a23269097789fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 1/8] fix: keep wrapped radii as 64-bit so long paths with
 large weights decode

---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From 80a5f235b810f58f4cf85a0cc348aedbd337cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 2/8] fix: convert bit vectors with more than 32 observables to
 masks correctly

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..65efd10 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -65,7 +65,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From 03a6032fbdc9c684bea033171d1d13f55b2c37b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 3/8] fix: leave the decoder usable after rejecting an
 out-of-range detection event

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 65efd10..60195ee 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -88,11 +88,13 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
         // Just add detection events if graph has no negative weights
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
+            if (detection >= mwpm.flooder.graph.nodes.size()) {
+                mwpm.reset();
                 throw std::invalid_argument(
                     "The detection event with index " + std::to_string(detection) +
                     " does not correspond to a node in the graph, which only has " +
                     std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+            }
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
@@ -106,10 +108,12 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
+            if (detection >= mwpm.flooder.graph.nodes.size()) {
+                mwpm.reset();
                 throw std::invalid_argument(
                     "Detection event index `" + std::to_string(detection) +
                     "` is larger than any detector node index in the graph.");
+            }
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From 397961b2e3a26b30273763ec4a900fda5c80cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 4/8] fix: add the solution weight to the output for 64 or
 fewer observables, as documented

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 60195ee..6862057 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -242,7 +242,7 @@ void pm::decode_detection_events(
         // Translate observable mask into bit vector
         fill_bit_vector_from_obs_mask(bit_packed_res.obs_mask, obs_begin_ptr, num_observables);
         // Add negative weight sum to blossom solution weight
-        weight = bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
+        weight += bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
     }
 
     if (edge_correlations) {
-- 
2.43.0


From 0d1c68ff857b9cd1c10e438a67f28fee96aeddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 5/8] fix: count the observables of an edge that replaces a
 parallel edge

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..36328db 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -99,8 +99,13 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
+        if (use_new_observables) {
             neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From 5fe9b48bc9c3ea6e5f62b037d617a8bced7aca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 6/8] fix: check shortest-path endpoints before reading their
 nodes

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 36328db..edf2539 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -371,12 +371,12 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
     auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
     if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
-- 
2.43.0


From 146c22c6ee7492b4f8a0408217f18833dba104b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 7/8] fix: reject a second boundary edge before recording its
 negative weight

---
 src/pymatching/sparse_blossom/flooder/graph.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/graph.cc b/src/pymatching/sparse_blossom/flooder/graph.cc
index 5c1b885..5aed394 100644
--- a/src/pymatching/sparse_blossom/flooder/graph.cc
+++ b/src/pymatching/sparse_blossom/flooder/graph.cc
@@ -93,16 +93,17 @@ void MatchingGraph::add_boundary_edge(
             obs_mask ^= (pm::obs_int)1 << obs;
     }
 
+    auto& n = nodes[u];
+    if (!n.neighbors.empty() && n.neighbors[0] == nullptr) {
+        throw std::invalid_argument("Max one boundary edge.");
+    }
+
     if (weight < 0) {
         update_negative_weight_observables(observables);
         update_negative_weight_detection_events(u);
         negative_weight_sum += weight;
     }
 
-    auto& n = nodes[u];
-    if (!n.neighbors.empty() && n.neighbors[0] == nullptr) {
-        throw std::invalid_argument("Max one boundary edge.");
-    }
     n.neighbors.insert(n.neighbors.begin(), 1, nullptr);
     n.neighbor_weights.insert(n.neighbor_weights.begin(), 1, std::abs(weight));
     n.neighbor_observables.insert(n.neighbor_observables.begin(), 1, obs_mask);
-- 
2.43.0


From a862a2cc3e5bb537e0bdfb4fb1dc392ffd9ff9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:29 +0000
Subject: [PATCH 8/8] fix: report unconnected shortest-path endpoints instead
 of dereferencing null

---
 src/pymatching/sparse_blossom/search/search_flooder.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..ac709ab 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -85,6 +85,10 @@ template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_middle(size_t src, size_t dst, Callable handle_edge) {
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(&graph.nodes[src], loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("No path exists between the source and the target.");
+    }
     iter_edges_tracing_back_from_collision_edge(collision_edge, handle_edge);
     reset();
 }
@@ -105,6 +109,10 @@ void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t d
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("No path exists between the source and the target.");
+    }
 
     std::vector<SearchGraphEdge> path_edges_1;
     iter_edges_on_path_traced_back_from_node(
-- 
2.43.0

