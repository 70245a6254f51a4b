From eb714124c0186c400fd5d92e7a957eda63999722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 01/50] fix: maximal_independent_set excludes every vertex with
 a self-loop, not only the seed

---
 include/graph/algorithm/mis.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..790d268 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -184,6 +184,17 @@ size_t maximal_independent_set(G&&                      g,       // graph
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
     if (!removed_vertices[uid]) {
+      // A vertex with a self-loop is adjacent to itself and cannot be in any independent set
+      bool has_self_loop = false;
+      for (auto uv : edges(g, u)) {
+        if (target_id(g, uv) == uid) {
+          has_self_loop = true;
+          break;
+        }
+      }
+      if (has_self_loop) {
+        continue;
+      }
       *mis++ = uid;
       ++count;
       removed_vertices[uid] = 1;
-- 
2.43.0


From 73af0d1452ed8194eb05bf3f1114d901e2364b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 02/50] fix: articulation_points no longer reads a stack frame
 after popping it

---
 include/graph/algorithm/articulation_points.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 9d3b5d8..a15a7c9 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -179,19 +179,20 @@ void articulation_points(G&& g, Iter cut_vertices) {
       }
 
       if (it == it_end) {
-        // All edges processed — backtrack
+        // All edges processed — backtrack (uid refers into the frame about to be popped)
+        const vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
           auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
           // Update low-link of parent
-          if (low[uid] < low[par_uid]) {
-            low[par_uid] = low[uid];
+          if (low[backtrack_uid] < low[par_uid]) {
+            low[par_uid] = low[backtrack_uid];
           }
 
           // Check articulation point condition for non-root
           if (parent[par_uid] != NO_PARENT) {
             // Non-root rule: child v has low[v] >= disc[u]
-            if (low[uid] >= disc[par_uid] && !emitted[par_uid]) {
+            if (low[backtrack_uid] >= disc[par_uid] && !emitted[par_uid]) {
               *cut_vertices++ = par_uid;
               emitted[par_uid] = true;
             }
-- 
2.43.0


From 944ec8fe91c69b8ad1187da0e13cc638fd749c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 03/50] fix: biconnected_components emits the trivial component
 of a vertex whose only edges are self-loops

---
 include/graph/algorithm/biconnected_components.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..3c65744 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -262,6 +262,11 @@ void biconnected_components(G&& g, OuterContainer& components) {
         }
       }
     }
+
+    // No other vertex was reached (only self-loops): trivial biconnected component
+    if (timer == disc[start] + 1) {
+      components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
+    }
   }
 }
 
-- 
2.43.0


From 445bd7a30f982274deeda9f8c8bf9a8fc11c53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 04/50] fix: kosaraju computes true DFS finish times

---
 include/graph/algorithm/connected_components.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..2c27d4e 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -154,7 +154,6 @@ void kosaraju(G&&        g,        // graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -164,7 +163,10 @@ void kosaraju(G&&        g,        // graph
         // All children have been visited, add to finish order (post-order)
         // This ensures children finish before parents in topological sort
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // Visited when taken off the stack (not when pushed), so that finish times are those of a true DFS
+        visited[uid] = true;
+
         // Mark that we'll process this vertex after its children
         // Re-push with children_visited=true to record finish time later
         stack.push({uid, true});
@@ -174,7 +176,6 @@ void kosaraju(G&&        g,        // graph
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
@@ -283,7 +284,6 @@ void kosaraju(G&&        g,        // bidirectional graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack;
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -291,13 +291,14 @@ void kosaraju(G&&        g,        // bidirectional graph
 
       if (children_visited) {
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // Visited when taken off the stack (not when pushed), so that finish times are those of a true DFS
+        visited[uid] = true;
         stack.push({uid, true});
 
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
-- 
2.43.0


From 96a6f8cbe6a95d705cd1d618469b00ccd1c65d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 05/50] fix: afforest returns immediately on a graph without
 vertices

---
 include/graph/algorithm/connected_components.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 2c27d4e..a3b0e4a 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -721,6 +721,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return;
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -828,6 +831,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return;
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From ea74a5d3cd117171420f56415b1344d6bf8ec414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 06/50] fix: kruskal and inplace_kruskal find the largest
 vertex id by looking at every edge

---
 include/graph/algorithm/mst.hpp | 50 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..d04dcef 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -565,18 +565,20 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
+  // Find maximum vertex ID (needed to size disjoint-set structure). Every edge must be looked at: a sort need not
+  // call its comparator with every element, nor at all when there is a single edge.
+  VId N = 0;
+  for (auto&& [uid, vid, val] : e_copy) {
+    if (uid > N) {
+      N = uid; // Check source vertex
     }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
+    if (vid > N) {
+      N = vid; // Check target vertex
     }
-    return compare(get<2>(i), get<2>(j)); // Compare edge weights
-  };
+  }
+
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<2>(i), get<2>(j)); };
   std::ranges::sort(e_copy, outer_compare);
 
   // Initialize disjoint-set: each vertex starts in its own set
@@ -708,26 +710,22 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
+  // Find maximum vertex ID (needed to size disjoint-set structure). Every edge must be looked at: a sort need not
+  // call its comparator with every element, nor at all when there is a single edge.
+  VId N = 0;
+  for (auto&& [uid, vid, val] : e) {
+    if (uid > N) {
+      N = uid; // Check source vertex
     }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
+    if (vid > N) {
+      N = vid; // Check target vertex
     }
-    return compare(i.value, j.value); // Compare edge weights
-  };
-  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
-
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
   }
 
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(i.value, j.value); };
+  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
+
   // Initialize disjoint-set: each vertex starts in its own set
   disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
   for (VId uid = 0; uid <= N; ++uid) {
-- 
2.43.0


From 7548674120b95341be5ce29d04d0c0d17d7924fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 07/50] fix: prim adds each vertex once, over its best edge to
 the tree

---
 include/graph/algorithm/mst.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index d04dcef..f9b5a3f 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -939,21 +939,29 @@ auto prim(G&&                   g,           // graph
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
   // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // (arguments swapped because std::priority_queue keeps the *last* element of the order on top)
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
-  // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
+  // Heap of (vertex, weight) pairs with the best edge, according to compare, on top
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
   Q.push({seed, distance[seed]}); // Start from seed vertex
 
+  // Vertices already in the tree: their tree edge is final
+  std::vector<bool> in_tree(N, false);
+
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
+    if (in_tree[uid]) {
+      continue; // Superseded entry: uid was already added over a better edge
+    }
+    in_tree[uid] = true;
 
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
       // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
@@ -967,8 +975,8 @@ auto prim(G&&                   g,           // graph
   // Exclude seed vertex (which has no incoming edge in MST)
   EV total_weight = EV{};
   for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
+    if (v != static_cast<size_t>(seed) && in_tree[v]) {
+      // Only count vertices in MST
       total_weight += weight[v];
     }
   }
-- 
2.43.0


From c058fa1b4a9b2c2fa95c8460023175043e353969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 08/50] fix: bellman_ford_shortest_paths relaxes edges out of
 reached vertices only

---
 .../graph/algorithm/bellman_ford_shortest_paths.hpp   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..a2881f4 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -186,6 +186,9 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   using weight_type   = invoke_result_t<WF, const std::remove_reference_t<G>&, edge_t<G>>;
   using return_type   = optional<vertex_id_t<G>>;
 
+  constexpr auto zero     = shortest_path_zero<DistanceValue>();
+  constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
+
   // relaxing the target is the function of reducing the distance from the source to the target
   auto relax_target = [&g, &predecessor, &distances, &compare, &combine] //
         (const edge_t<G>& e, const vertex_id_t<G>& uid, const weight_type& w_e) -> bool {
@@ -193,6 +196,9 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
 
+    if (d_u == infinite) {
+      return false; // the source hasn't been reached: there's no path to extend
+    }
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
       if constexpr (!is_same_v<Predecessors, _null_range_type>) {
@@ -217,9 +223,6 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     }
   }
 
-  constexpr auto zero     = shortest_path_zero<DistanceValue>();
-  constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
-
   const id_type N = static_cast<id_type>(num_vertices(g));
 
   // Seed the queue with the initial vertice(s)
@@ -260,7 +263,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From 8d6b67e1daf4a03aab1e2309feb31dd6cd539a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 09/50] fix: bellman_ford_shortest_paths returns a vertex on
 the negative cycle when predecessors are recorded

---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index a2881f4..f6b1eca 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -270,7 +270,14 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
         if constexpr (has_on_edge_not_minimized<G, Visitor>) {
           visitor.on_edge_not_minimized(g, uv);
         }
-        return return_type(uid);
+        // The edge may only be reachable from the cycle. After N predecessor steps we are on the cycle itself.
+        id_type cycle_id = uid;
+        if constexpr (!is_same_v<Predecessors, _null_range_type>) {
+          for (id_type k = 0; k < N; ++k) {
+            cycle_id = static_cast<id_type>(predecessor[static_cast<size_t>(cycle_id)]);
+          }
+        }
+        return return_type(cycle_id);
       } else {
         if constexpr (has_on_edge_minimized<G, Visitor>) {
           visitor.on_edge_minimized(g, uv);
-- 
2.43.0


From 6855b0826aba79202564891d8129691023476be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 10/50] fix: edges_bfs cancel_branch forgets all but the last
 cancelled branch

---
 include/graph/views/bfs.hpp | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..f78ee1d 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the newest queue entry; drop its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -810,7 +802,6 @@ public:
 
             // Store and return this edge
             current_edge_      = edge;
-            current_target_id_ = target_vid;
             has_edge_          = true;
             return;
           }
@@ -824,7 +815,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +945,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the newest queue entry; drop its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -997,7 +980,6 @@ public:
 
             // Store and return this edge
             current_edge_      = edge;
-            current_target_id_ = target_vid;
             has_edge_          = true;
             return;
           }
@@ -1012,7 +994,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From 35760a46af12d31c789ed3996be6b0417f83e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 11/50] fix: topological sort views overflow the call stack on
 deep graphs

---
 include/graph/views/topological_sort.hpp | 63 +++++++++++++++---------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/include/graph/views/topological_sort.hpp b/include/graph/views/topological_sort.hpp
index ff743de..f4cc6c8 100644
--- a/include/graph/views/topological_sort.hpp
+++ b/include/graph/views/topological_sort.hpp
@@ -75,8 +75,8 @@
  * | Metric | Bound                                                  |
  * |--------|--------------------------------------------------------|
  * | Time   | O(V + E) — DFS visits every vertex / edge once         |
- * | Space  | O(V) — post-order vector + visited tracker (+ O(V)     |
- * |        | recursion stack when cycle detection is enabled)        |
+ * | Space  | O(V) — post-order vector + visited tracker + DFS stack |
+ * |        | (+ O(V) flags when cycle detection is enabled)          |
  *
  * ---
  *
@@ -232,17 +232,46 @@ namespace topo_detail {
     [[nodiscard]] const std::optional<vertex_type>& cycle_vertex() const noexcept { return cycle_vertex_; }
 
   private:
-    // Recursive DFS visit for topological sort
-    void dfs_visit(G& g, vertex_type v, bool detect_cycles) {
-      auto vid = adj_list::vertex_id(g, v);
-      visited_.mark_visited(vid);
+    // DFS visit for topological sort. Keeps its own stack, so that the depth of the graph isn't
+    // limited by the size of the call stack.
+    void dfs_visit(G& g, vertex_type root, bool detect_cycles) {
+      using edge_iter_type = std::ranges::iterator_t<typename Accessor::template edge_range_t<G>>;
+      struct frame {
+        vertex_type    vertex;
+        edge_iter_type edge_end;
+        edge_iter_type edge_current;
+      };
+      std::stack<frame, std::vector<frame>> frames;
+
+      auto enter = [&](vertex_type v) {
+        auto vid = adj_list::vertex_id(g, v);
+        visited_.mark_visited(vid);
+        if (detect_cycles) {
+          rec_stack_[vid] = true;
+        }
+        auto edge_range = Accessor{}.edges(g, v);
+        auto edge_begin = std::ranges::begin(edge_range);
+        auto edge_end   = std::ranges::end(edge_range);
+        frames.push({v, edge_end, edge_begin});
+      };
+
+      enter(root);
+      while (!frames.empty()) {
+        auto& current = frames.top();
+
+        if (current.edge_current == current.edge_end) {
+          // All children visited: add to post-order
+          if (detect_cycles) {
+            rec_stack_[adj_list::vertex_id(g, current.vertex)] = false;
+          }
+          post_order_.push_back(current.vertex);
+          frames.pop();
+          continue;
+        }
 
-      if (detect_cycles) {
-        rec_stack_[vid] = true;
-      }
+        auto edge = *current.edge_current;
+        ++current.edge_current;
 
-      // Visit all children
-      for (auto edge : Accessor{}.edges(g, v)) {
         auto target_v   = Accessor{}.neighbor(g, edge);
         auto target_vid = adj_list::vertex_id(g, target_v);
 
@@ -253,19 +282,9 @@ namespace topo_detail {
         }
 
         if (!visited_.is_visited(target_vid)) {
-          dfs_visit(g, target_v, detect_cycles);
-          if (cycle_vertex_) {
-            return; // Propagate early exit
-          }
+          enter(target_v);
         }
       }
-
-      if (detect_cycles) {
-        rec_stack_[vid] = false;
-      }
-
-      // Add to post-order after all children visited
-      post_order_.push_back(v);
     }
   };
 
-- 
2.43.0


From 5f0521abaaadfc46930516fc71486e5b193db227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 12/50] fix: transpose target() returned the vertex the edge
 leaves instead of the vertex it reaches

---
 include/graph/views/transpose.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..3e927f2 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -11,7 +11,7 @@
  * | in_edges(g, u)      | edges(underlying, u)       |
  * | target_id(g, e)     | source_id(underlying, e)   |
  * | source_id(g, e)     | target_id(underlying, e)   |
- * | target(g, e)        | source(underlying, e)      |
+ * | target(g, e)        | vertex source_id(underlying, e) |
  * | source(g, e)        | target(underlying, e)      |
  * | degree(g, v)        | in_degree(underlying, v)   |
  * | in_degree(g, v)     | degree(underlying, v)      |
@@ -158,14 +158,16 @@ public:
     return adj_list::target_id(*tv.g_, e);
   }
 
-  /// target(transpose, e) → source(underlying, e)
+  /// target(transpose, e) → vertex with id source_id(underlying, e)
+  // Uses source_id + find_vertex because source() on an in-edge descriptor returns the
+  // vertex owning the in-edge list, which is the source of the transposed edge.
   template <adj_list::edge_descriptor_type E>
   friend constexpr auto target(const transpose_view& tv, const E& e) {
-    return adj_list::source(*tv.g_, e);
+    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(*tv.g_, e));
   }
   template <adj_list::edge_descriptor_type E>
   friend constexpr auto target(transpose_view& tv, const E& e) {
-    return adj_list::source(*tv.g_, e);
+    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(*tv.g_, e));
   }
 
   /// source(transpose, e) → target(underlying, e)
-- 
2.43.0


From e9ae796ad01bcd8f0c370dbc692dfd049d843adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:01 +0000
Subject: [PATCH 13/50] fix: num_edges(transpose, u) counted the edges entering
 u instead of those leaving it

---
 include/graph/views/transpose.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 3e927f2..93e4272 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -207,12 +207,12 @@ public:
   }
 
   // ===========================================================================
-  // num_edges — forwarded
+  // num_edges — the total is forwarded, the count of one vertex is swapped
   // ===========================================================================
 
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0


From 557857d87b7ba540a562258777bc1e4d4670295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 14/50] fix: compressed_graph::load_vertices must give added
 vertices an empty edge range

---
 include/graph/container/compressed_graph.hpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..f2ad7f5 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -635,22 +635,16 @@ public: // Operations
   template <forward_range VRng, class VProj = identity>
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_vertices(const VRng& vrng, VProj vprojection = {}, size_type vertex_count = 0) {
-    // Scan the vertex data to find the maximum vertex ID
-    vertex_id_type max_id = 0;
+    // Determine required vertex count: max(provided hint, max id + 1, existing size)
+    vertex_count = max(vertex_count, size());
     for (auto&& vtx_data : vrng) {
-      auto&& vtx = vprojection(vtx_data);
-      max_id     = max(max_id, static_cast<vertex_id_type>(vtx.id));
+      auto&& vtx   = vprojection(vtx_data);
+      vertex_count = max(vertex_count, static_cast<size_type>(vtx.id) + 1);
     }
 
-    // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
-
-    // If graph structure doesn't exist yet, create it based on vertex count
-    if (row_index_.empty() && vertex_count > 0) {
-      row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
-    } else if (vertex_count > size()) {
-      // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
+    // Create or expand the rows if needed; the added vertices have no edges
+    if (vertex_count > size()) {
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
-- 
2.43.0


From ae201318d7d9255401d8a21f4794c79934f42d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 15/50] fix: compressed_graph built from an empty edge range
 must not throw

---
 include/graph/container/compressed_graph.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index f2ad7f5..bbb437a 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -698,7 +698,6 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
       return;
     }
 
@@ -762,7 +761,6 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
       return;
     }
 
-- 
2.43.0


From 77b2fb51cad77e33d08e6c3df5549e6db827f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 16/50] fix: last partition of compressed_graph must end at the
 vertex count

---
 include/graph/container/compressed_graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index bbb437a..8c35e48 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -903,13 +903,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
+      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(size())) {
         throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+                                      size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
-- 
2.43.0


From ebf511229ece9d1c8e42a6e5c12399079837532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 17/50] fix: compressed_graph::load_edges(ERng&&) must reject
 unordered edges in every build

---
 include/graph/container/compressed_graph.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 8c35e48..9bc9d3a 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -722,8 +722,11 @@ public: // Operations
     // Add edges
     vertex_id_type last_uid = 0, max_vid = 0;
     for (auto&& edge_data : erng) {
-      auto&& edge = eprojection(edge_data);                            // compressed_graph requires EV!=void
-      assert(static_cast<vertex_id_type>(edge.source_id) >= last_uid); // ordered by uid? (requirement)
+      auto&& edge = eprojection(edge_data);                           // compressed_graph requires EV!=void
+      if (static_cast<vertex_id_type>(edge.source_id) < last_uid) {   // ordered by uid? (requirement)
+        throw graph_error(std::format("source id of {} is not ordered after source id of {} in the data input",
+                                      edge.source_id, last_uid));
+      }
 
       // Only resize when we encounter a new source vertex (optimization)
       if (static_cast<vertex_id_type>(edge.source_id) != last_uid || row_index_.empty()) {
-- 
2.43.0


From 423b3eaa944cd08939073159b4c9e4cb2bec499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 18/50] fix: compressed_graph::load_edges must not move edge
 values out of a caller's lvalue range

---
 include/graph/container/compressed_graph.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 9bc9d3a..d7ad917 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -737,7 +737,11 @@ public: // Operations
 
       col_index_.push_back(edge_type{static_cast<vertex_id_type>(edge.target_id)});
       if constexpr (!is_void_v<EV>)
-        static_cast<col_values_base&>(*this).emplace_back(move(edge.value));
+        if constexpr ((std::is_lvalue_reference_v<ERng> || std::ranges::view<std::remove_cvref_t<ERng>>) &&
+                      std::is_lvalue_reference_v<decltype(eprojection(edge_data))>)
+          static_cast<col_values_base&>(*this).push_back(edge.value); // the caller keeps its values
+        else
+          static_cast<col_values_base&>(*this).emplace_back(move(edge.value));
       max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));
     }
 
-- 
2.43.0


From 151f7aac4cb836ab9bc38f47cf2cfa035ffa33fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 19/50] fix: compressed_graph::load_edges must keep the
 vertices of an earlier load_vertices

---
 include/graph/container/compressed_graph.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index d7ad917..f2291df 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -694,13 +694,17 @@ public: // Operations
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void load_edges(ERng&& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
     // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
       return;
     }
 
+    // load_vertices() may have created rows already; they're rebuilt from the edges
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
     // We can get the last vertex id from the list because erng is required to be ordered by
     // the source id. It's possible a target_id could have a larger id also, which is taken
     // care of at the end of this function.
@@ -764,13 +768,17 @@ public: // Operations
   constexpr void
   load_edges(const ERng& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
     // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
       return;
     }
 
+    // load_vertices() may have created rows already; they're rebuilt from the edges
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
     // We can get the last vertex id from the list because erng is required to be ordered by
     // the source id. It's possible a target_id could have a larger id also, which is taken
     // care of at the end of this function.
-- 
2.43.0


From 0bf9eca767ceeebdcb147de4c407976104f6d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 20/50] fix: compressed_graph must hold a value for every
 vertex

---
 include/graph/container/compressed_graph.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index f2291df..e7f8911 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -646,6 +646,8 @@ public: // Operations
     if (vertex_count > size()) {
       row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
+    if (row_values_base::size() < vertex_count)
+      row_values_base::resize(vertex_count);
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
   }
@@ -755,10 +757,9 @@ public: // Operations
     // add any rows that haven't been added yet, and (+1) terminating row
     row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
 
-    // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
-    // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
-    // getting a value for a row.
-    if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
+    // If there aren't enough vertex values for all the vertices then we extend the size to remove
+    // possibility of out-of-bounds occuring when getting a value for a row.
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
@@ -840,10 +841,9 @@ public: // Operations
     // add any rows that haven't been added yet, and (+1) terminating row
     row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
 
-    // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
-    // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
-    // getting a value for a row.
-    if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+    // If there aren't enough vertex values for all the vertices then we extend the size to remove
+    // possibility of out-of-bounds occuring when getting a value for a row.
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
-- 
2.43.0


From 1e2d2d5c1e109344a97b72145316b4786a76d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 21/50] fix: compressed_graph edge_value must not narrow the
 edge index to a vertex id

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index e7f8911..f200a24 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1383,9 +1383,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 2bf00dfa1231f7ca1d30b0b8a9937507440bc6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 22/50] fix: dynamic_graph::load_vertices must honour
 vertex_count for unsized ranges

---
 include/graph/container/dynamic_graph.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index cccfd1e..700db49 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1131,9 +1131,11 @@ public: // Load operations
       }
     } else {
       // For sequential containers, pre-size and use index-based access
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>)
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
@@ -1202,9 +1204,11 @@ public: // Load operations
     } else {
       // For sequential containers, pre-size and use index-based access
       // Harmonize sizing logic with const& overload (ensure we never shrink and honor explicit vertex_count)
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>)
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
-- 
2.43.0


From 7cc2a637dabae8b34f80e8ff73f6601fb7d45811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 23/50] fix: dynamic_graph::load_vertices must not move values
 out of a caller's lvalue range

---
 include/graph/container/dynamic_graph.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 700db49..5973b4d 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1187,6 +1187,8 @@ public: // Load operations
   */
   template <class VRng, class VProj = identity>
   void load_vertices(VRng&& vrng, VProj vproj = {}, size_type vertex_count = 0) {
+    // The values of an lvalue range (or of what a view refers to) stay with the caller
+    constexpr bool keep_values = std::is_lvalue_reference_v<VRng> || std::ranges::view<std::remove_cvref_t<VRng>>;
     if constexpr (is_associative_container<vertices_type>) {
       // For associative containers, operator[] auto-inserts vertices
       // No resize needed, use vertex ID directly as key
@@ -1197,8 +1199,11 @@ public: // Load operations
           VId    id        = projected.id;
           (void)vertices_[id]; // ensure vertex exists
         } else {
-          auto&& [id, value]    = vproj(v); //copyable_vertex_t<VId, VV>
-          vertices_[id].value() = move(value);
+          auto&& [id, value] = vproj(v); //copyable_vertex_t<VId, VV>
+          if constexpr (keep_values && std::is_lvalue_reference_v<decltype(vproj(v))>)
+            vertices_[id].value() = value;
+          else
+            vertices_[id].value() = move(value);
         }
       }
     } else {
@@ -1227,7 +1232,10 @@ public: // Load operations
             if (k >= vertices_.size()) [[unlikely]]
               throw std::out_of_range("vertex id in load_vertices exceeds current vertex container size");
           }
-          vertices_[k].value() = move(value);
+          if constexpr (keep_values && std::is_lvalue_reference_v<decltype(vproj(v))>)
+            vertices_[k].value() = value;
+          else
+            vertices_[k].value() = move(value);
         }
       }
     }
-- 
2.43.0


From b31206f899fb80f68a5a30f30c3e55d63fa20a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 24/50] fix: dynamic_graph from an empty initializer list must
 have no vertices

---
 include/graph/container/dynamic_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 5973b4d..0f0e173 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1085,7 +1085,8 @@ public: // Construction/Destruction/Assignment
       size_t last_id = 0;
       for (auto&& e : il)
         last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));
-      resize_vertices(last_id + 1);
+      if (il.size() > 0)
+        resize_vertices(last_id + 1);
       // canonical order: supply vertex_count to avoid inference pass
       load_edges(il, {}, vertices_.size(), il.size());
     }
-- 
2.43.0


From 0e6eb59dc773f453b5c24eeb418e05c4d1486a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 25/50] fix: source_id of an in-edge stored as a uniform edge
 is the id it holds

---
 include/graph/adj_list/edge_descriptor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/graph/adj_list/edge_descriptor.hpp b/include/graph/adj_list/edge_descriptor.hpp
index 7473f1a..fd592cd 100644
--- a/include/graph/adj_list/edge_descriptor.hpp
+++ b/include/graph/adj_list/edge_descriptor.hpp
@@ -140,6 +140,10 @@ public:
       return edge_val.source_id();
     } else if constexpr (requires { edge_val.first; }) {
       return edge_val.first;
+    } else if constexpr (requires { edge_val.target_id(); }) {
+      // Uniform bidirectional containers reuse the out-edge type for in-edges;
+      // the id it stores (its "target") is the neighbor, i.e. the source vertex.
+      return edge_val.target_id();
     } else if constexpr (requires { std::get<0>(edge_val); }) {
       return std::get<0>(edge_val);
     } else {
-- 
2.43.0


From 6e9e9e7f991c072b64034034b990aa1afc8c60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 26/50] fix: source_id of in-edges for graphs keyed by vertex
 id must navigate in_edges

---
 include/graph/detail/edge_cpo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..cf9d5ca 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -339,7 +339,7 @@ namespace _cpo_impls {
             // If the vertex data doesn't expose .in_edges(), fall back to the
             // no-arg source_id() (returns the owning / queried vertex ID).
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
-            if constexpr (requires { vd.in_edges(); }) {
+            if constexpr (requires { vd.in_edges(); } || requires { vd.second.in_edges(); }) {
               return uv.source_id(vd);
             } else {
               return uv.source_id();
-- 
2.43.0


From d3f1d2e3ae31920c69a127d99b9ab92c1f554835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 27/50] fix: target_id of an in-edge is its owning vertex for
 every edge container

---
 include/graph/detail/edge_cpo.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index cf9d5ca..b965781 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -49,7 +49,9 @@ namespace _cpo_impls {
     concept _has_native_edge_member =
           adj_list::is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(G& g, const E& uv) {
             { (*uv.value()).target_id() };
-          };
+          } &&
+          // An in-edge's target is its owning vertex, not the id stored in the native edge
+          !std::remove_cvref_t<E>::is_in_edge;
 
     // Check for ADL target_id(g, descriptor) - medium priority custom override
     // This allows customization by providing a free function that takes the descriptor
-- 
2.43.0


From b65733ddf505522015d4dc64d15a391fc6920f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 28/50] fix: source of an in-edge is the neighbor, not the
 owning vertex

---
 include/graph/adj_list/detail/graph_cpo.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..b834452 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3186,10 +3186,12 @@ namespace _cpo_impls {
     };
 
     // Check if edge descriptor has source() member
+    // An in-edge descriptor stores its owning vertex, which is the target, so it is excluded.
     template <typename E>
-    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
-      { uv.source() };
-    };
+    concept _has_descriptor =
+          is_edge_descriptor_v<std::remove_cvref_t<E>> && !std::remove_cvref_t<E>::is_in_edge && requires(const E& uv) {
+            { uv.source() };
+          };
 
     // Check if default implementation is available
     // Requires source_id(g, uv) and find_vertex(g, id) to work
@@ -3243,7 +3245,7 @@ namespace _cpo_impls {
              *    - May return vertex_descriptor or vertex_iterator (auto-converted)
              * 2. source(g, uv) - ADL (high priority)
              *    - May return vertex_descriptor or vertex_iterator (auto-converted)
-             * 3. uv.source() - Edge descriptor's source() member (medium priority)
+             * 3. uv.source() - Edge descriptor's source() member (medium priority, out-edges only)
              *    - Returns the stored source vertex descriptor directly
              * 4. *find_vertex(g, source_id(g, uv)) - Default (lowest priority)
              *    - Uses source_id to get ID, then find_vertex to locate vertex
-- 
2.43.0


From 749d6ac2fc64a9873a43d4a8a0955e9f315119d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 29/50] fix: accept std::unordered_map as a graph, as
 documented

---
 include/graph/adj_list/descriptor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/descriptor.hpp b/include/graph/adj_list/descriptor.hpp
index 2d1bac6..7684f68 100644
--- a/include/graph/adj_list/descriptor.hpp
+++ b/include/graph/adj_list/descriptor.hpp
@@ -111,13 +111,13 @@ concept random_access_vertex_pattern = std::random_access_iterator<Iter>;
 /**
  * @brief Concept for pair-value vertex pattern (map-like)
  * 
- * Used with bidirectional iterators where the value_type is pair-like.
+ * Used with forward (or stronger) iterators where the value_type is pair-like.
  * inner_value returns the .second part (the data, excluding the key).
  * Pattern: *iterator -> pair{key, data}, inner_value returns data&
  * Example: std::map<int, VertexData> where inner_value returns VertexData& (.second)
  */
 template <typename Iter>
-concept pair_value_vertex_pattern = std::bidirectional_iterator<Iter> && !std::random_access_iterator<Iter> &&
+concept pair_value_vertex_pattern = std::forward_iterator<Iter> && !std::random_access_iterator<Iter> &&
                                     pair_like_value<typename std::iterator_traits<Iter>::value_type>;
 
 /**
-- 
2.43.0


From 7684f7cede1d321ff14099d23f7fcf8062c9cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 30/50] fix: find_vertex on an indexed range takes constant
 time, as documented

---
 include/graph/adj_list/detail/graph_cpo.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index b834452..ca07666 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -556,8 +556,16 @@ namespace _cpo_impls {
           using view_iterator      = typename view_type::iterator;
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
-          using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          using iter_type    = decltype(std::ranges::begin(vertices(std::forward<G>(g))));
+          using storage_type = typename std::iter_value_t<iter_type>::storage_type;
+          if constexpr (std::integral<storage_type>) {
+            // The descriptor is an index: step to it directly, the view's iterator can only be incremented
+            const auto first = *std::ranges::begin(vertices(std::forward<G>(g)));
+            return iter_type{static_cast<storage_type>(first.value() + static_cast<storage_type>(uid))};
+          } else {
+            using diff_type = std::iter_difference_t<iter_type>;
+            return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          }
         }
       }
     };
-- 
2.43.0


From 49f9e0e81e6ee5f9cf10f38c0eb5878713fe3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 31/50] fix: degree and edges of sized edge containers do not
 count the edges one by one

---
 include/graph/adj_list/edge_descriptor_view.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor_view.hpp b/include/graph/adj_list/edge_descriptor_view.hpp
index 07527fb..28af641 100644
--- a/include/graph/adj_list/edge_descriptor_view.hpp
+++ b/include/graph/adj_list/edge_descriptor_view.hpp
@@ -112,7 +112,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (std::ranges::sized_range<Container>) {
+        size_ = static_cast<std::size_t>(std::ranges::size(container));
+      } else {
+        size_ = static_cast<std::size_t>(std::distance(begin_, end_));
+      }
     }
   }
 
@@ -137,7 +141,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (std::ranges::sized_range<const Container>) {
+        size_ = static_cast<std::size_t>(std::ranges::size(container));
+      } else {
+        size_ = static_cast<std::size_t>(std::distance(begin_, end_));
+      }
     }
   }
 
-- 
2.43.0


From 117ed6b1dcac81b3d73816d32c25fc70dd46109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 32/50] fix: edges and in_edges by id of a customised container
 referred to a destroyed copy

---
 include/graph/adj_list/detail/graph_cpo.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index ca07666..68bef86 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -784,7 +784,8 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
           // ADL: edges(g, uid)
-          auto result = [&g, &uid]() {
+          // Keep a reference to a container a reference: a copy would not outlive this call
+          auto&& result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -792,7 +793,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_if_needed(std::move(result), v);
+          return _wrap_if_needed(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           // Default: find vertex then call edges(g, u)
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
@@ -999,7 +1000,8 @@ namespace _cpo_impls {
         using _VId = std::remove_cvref_t<VId>;
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
-          auto result = [&g, &uid]() {
+          // Keep a reference to a container a reference: a copy would not outlive this call
+          auto&& result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return in_edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -1007,7 +1009,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_in_edge(std::move(result), v);
+          return _wrap_in_edge(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
-- 
2.43.0


From da5d89045ef4be81c3e88814303e5d0cb3f6733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 33/50] fix: value operations accept a free function that takes
 the graph by non-const reference

---
 include/graph/adj_list/detail/graph_cpo.hpp | 10 +++++-----
 include/graph/detail/edge_cpo.hpp           |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 68bef86..25c6e45 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -2987,11 +2987,11 @@ namespace _cpo_impls {
     template <typename G, typename U>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G, U>) {
-        return {_St::_member, noexcept(std::declval<G>().vertex_value(std::declval<const U&>()))};
+        return {_St::_member, noexcept(std::declval<G&>().vertex_value(std::declval<const U&>()))};
       } else if constexpr (_has_adl<G, U>) {
-        return {_St::_adl, noexcept(vertex_value(std::declval<G>(), std::declval<const U&>()))};
+        return {_St::_adl, noexcept(vertex_value(std::declval<G&>(), std::declval<const U&>()))};
       } else if constexpr (_has_default<G, U>) {
-        return {_St::_default, noexcept(std::declval<const U&>().inner_value(std::declval<G>()))};
+        return {_St::_default, noexcept(std::declval<const U&>().inner_value(std::declval<G&>()))};
       } else {
         return {_St::_none, false};
       }
@@ -3352,9 +3352,9 @@ namespace _cpo_impls {
     template <typename G, typename U>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G, U>) {
-        return {_St::_member, noexcept(std::declval<G>().partition_id(std::declval<const U&>()))};
+        return {_St::_member, noexcept(std::declval<G&>().partition_id(std::declval<const U&>()))};
       } else if constexpr (_has_adl<G, U>) {
-        return {_St::_adl, noexcept(partition_id(std::declval<G>(), std::declval<const U&>()))};
+        return {_St::_adl, noexcept(partition_id(std::declval<G&>(), std::declval<const U&>()))};
       } else if constexpr (_has_default<U>) {
         return {_St::_default, true}; // Default is noexcept
       } else {
diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index b965781..78dfb27 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -269,9 +269,9 @@ namespace _cpo_impls {
       if constexpr (_has_native_edge_member<G, E>) {
         return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id())};
       } else if constexpr (_has_member<G, E>) {
-        return {_St::_member, noexcept(std::declval<G>().source_id(std::declval<const E&>()))};
+        return {_St::_member, noexcept(std::declval<G&>().source_id(std::declval<const E&>()))};
       } else if constexpr (_has_adl<G, E>) {
-        return {_St::_adl, noexcept(source_id(std::declval<G>(), std::declval<const E&>()))};
+        return {_St::_adl, noexcept(source_id(std::declval<G&>(), std::declval<const E&>()))};
       } else if constexpr (_has_adj_list_descriptor<E>) {
         return {_St::_adj_list_descriptor, noexcept(std::declval<const E&>().source_id())};
       } else if constexpr (_has_edge_list_descriptor<E>) {
@@ -444,9 +444,9 @@ namespace _cpo_impls {
     template <typename G, typename E>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_member<G, E>) {
-        return {_St::_member, noexcept(std::declval<G>().edge_value(std::declval<const E&>()))};
+        return {_St::_member, noexcept(std::declval<G&>().edge_value(std::declval<const E&>()))};
       } else if constexpr (_has_adl<G, E>) {
-        return {_St::_adl, noexcept(edge_value(std::declval<G>(), std::declval<const E&>()))};
+        return {_St::_adl, noexcept(edge_value(std::declval<G&>(), std::declval<const E&>()))};
       } else if constexpr (_has_value_fn<G, E>) {
         return {_St::_value_fn, noexcept(std::declval<const E&>().value())};
       } else if constexpr (_has_adj_list_descriptor<G, E>) {
-- 
2.43.0


From 5bcc58e70fe8cb7ddf2c23cd5e2dd1f2c4d08d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 34/50] fix: graph_value accepts a customisation for the kind
 of reference it is called with

---
 include/graph/adj_list/detail/graph_cpo.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 25c6e45..e669474 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3105,7 +3105,7 @@ namespace _cpo_impls {
     class _fn {
     private:
       template <typename G>
-      static constexpr _Choice_t<_St> _Choice = _Choose<std::remove_cvref_t<G>>();
+      static constexpr _Choice_t<_St> _Choice = _Choose<G>();
 
     public:
       /**
@@ -3134,14 +3134,12 @@ namespace _cpo_impls {
              *         are all preserved.
              */
       template <typename G>
-      [[nodiscard]] constexpr decltype(auto) operator()(G&& g) const noexcept(_Choice<std::remove_cvref_t<G>>._No_throw)
-      requires(_Choice<std::remove_cvref_t<G>>._Strategy != _St::_none)
+      [[nodiscard]] constexpr decltype(auto) operator()(G&& g) const noexcept(_Choice<G>._No_throw)
+      requires(_Choice<G>._Strategy != _St::_none)
       {
-        using _G = std::remove_cvref_t<G>;
-
-        if constexpr (_Choice<_G>._Strategy == _St::_member) {
+        if constexpr (_Choice<G>._Strategy == _St::_member) {
           return std::forward<G>(g).graph_value();
-        } else if constexpr (_Choice<_G>._Strategy == _St::_adl) {
+        } else if constexpr (_Choice<G>._Strategy == _St::_adl) {
           return graph_value(std::forward<G>(g));
         }
       }
-- 
2.43.0


From 6d1f0d26989ca312ac228509ee03eaca68e80815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 35/50] fix: degree, in_degree and the partition defaults are
 noexcept only if what they call is

---
 include/graph/adj_list/detail/graph_cpo.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index e669474..404b160 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -149,7 +149,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_adl_pid<G, PId>) {
         return {_St_pid::_adl, noexcept(vertices(std::declval<G&>(), std::declval<const PId&>()))};
       } else if constexpr (_has_default_pid<G, PId>) {
-        return {_St_pid::_default, true}; // Default is noexcept
+        return {_St_pid::_default, _Choose<G>()._No_throw}; // As noexcept as the version without a partition
       } else {
         return {_St_pid::_none, false};
       }
@@ -1089,7 +1089,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_adl_u<G, U>) {
         return {_St_u::_adl, noexcept(in_degree(std::declval<G&>(), std::declval<const U&>()))};
       } else if constexpr (_has_default_u<G, U>) {
-        return {_St_u::_default, true};
+        return {_St_u::_default, noexcept(in_edges(std::declval<G&>(), std::declval<const U&>()))};
       } else {
         return {_St_u::_none, false};
       }
@@ -1459,7 +1459,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_adl_pid<G, PId>) {
         return {_St_pid::_adl, noexcept(num_vertices(std::declval<const G&>(), std::declval<const PId&>()))};
       } else if constexpr (_has_default_pid<G, PId>) {
-        return {_St_pid::_default, true}; // Default is noexcept
+        return {_St_pid::_default, _Choose<G>()._No_throw}; // As noexcept as the version without a partition
       } else {
         return {_St_pid::_none, false};
       }
@@ -1863,8 +1863,8 @@ namespace _cpo_impls {
         return {_St_u::_adl, noexcept(degree(std::declval<G&>(), std::declval<const U&>()))};
       } else if constexpr (_has_default_u<G, U>) {
         // Default implementation uses size() or distance() depending on the range type
-        // Both operations typically don't throw, so we return true
-        return {_St_u::_default, true};
+        // Both operations typically don't throw, so only edges(g, u) can
+        return {_St_u::_default, noexcept(edges(std::declval<G&>(), std::declval<const U&>()))};
       } else {
         return {_St_u::_none, false};
       }
-- 
2.43.0


From 6bae81f0cfed0b7b875c593a1d47fbf8e35ff79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 36/50] fix: link a self-loop into its vertex's edge list once

A self-loop was linked twice into the list of its only vertex: the list
reported two edges where iteration delivers one, and unlinking a self-loop
behind another edge left that edge pointing to freed memory.
---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..2a16961 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -387,9 +387,6 @@ void ual_vertex_edge_list<EV, VV, GV, VId, VContainer, Alloc>::unlink(
   if (size_ == 0) {
     assert(head_ == nullptr && tail_ == nullptr);
   }
-  // Note: For self-loops, size_ may be > 0 but the edge appears in the list twice
-  // (once as inward, once as outward), so assertions about head/tail equality
-  // don't hold during partial unlink. The invariant is restored after both unlinks.
 }
 
 template <typename EV,
@@ -588,7 +585,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once, through the inward link
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 template <typename EV,
           typename VV,
@@ -598,7 +596,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once, through the inward link
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
@@ -609,7 +608,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once, through the inward link
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
-- 
2.43.0


From 4d30053d13ef42b7851a8808338a3dbfd7e0d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 37/50] fix: copy every edge of an undirected_adjacency_list

The copy constructor (and so copy assignment) dropped each edge whose
source id is greater than its target id.
---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 2a16961..38e79a4 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1103,15 +1103,15 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   // Downcast to graph_type to access methods
   auto& g = static_cast<graph_type&>(*this);
 
-  // Copy edges - iterate through each vertex and copy edges where source_id <= target_id to avoid duplicates
+  // Copy edges - iterate through each vertex and copy the edges it owns to avoid duplicates
   for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
     const auto& src_vtx = other.vertices_[uid];
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
       vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
+      // Only copy each edge once: when uid matches source
+      if (uid == src_id) {
         if constexpr (std::is_void_v<EV>) {
           g.create_edge(src_id, tgt_id);
         } else {
-- 
2.43.0


From db8313e9c647cabdbd17dc6f33418bf12477025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 38/50] fix: make the graph-level edges() of
 undirected_adjacency_list usable

edges() passed the base class where the iterators need the graph and did
not compile. The range visits an edge from each of its endpoints, so the
edge count is not its size.
---
 docs/user-guide/containers.md                  |  2 +-
 .../container/undirected_adjacency_list.hpp    | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/docs/user-guide/containers.md b/docs/user-guide/containers.md
index 3e70f08..a97b520 100644
--- a/docs/user-guide/containers.md
+++ b/docs/user-guide/containers.md
@@ -417,7 +417,7 @@ need to be changed or when there are many edge properties.
 ### Iteration note
 
 Edge iteration at graph level visits each edge **twice** (once from each
-endpoint). Use `edges_size() / 2` for the unique edge count.
+endpoint), and a self-loop once. Use `num_edges()` for the unique edge count.
 
 ### Template parameters
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..91fe778 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -805,8 +805,8 @@ public: // Type Aliases
   // Edge iterators (nested classes)
   class edge_iterator;       // (defined below)
   class const_edge_iterator; // (defined below)
-  using edge_range       = ranges::subrange<edge_iterator, edge_iterator, ranges::subrange_kind::sized>;
-  using const_edge_range = ranges::subrange<const_edge_iterator, const_edge_iterator, ranges::subrange_kind::sized>;
+  using edge_range       = ranges::subrange<edge_iterator>; // unsized: an edge is visited from each of its endpoints
+  using const_edge_range = ranges::subrange<const_edge_iterator>;
 
   class const_edge_iterator {
   public:
@@ -999,8 +999,7 @@ public: // Accessors
   const_vertex_iterator try_find_vertex(vertex_id_type) const;
 
   /// @brief Get the number of edges in the graph.
-  /// @return Edge count (each undirected edge counted TWICE - once from each endpoint).
-  /// @note For unique edge count, divide by 2.
+  /// @return Edge count (each undirected edge counted once).
   /// @complexity O(1)
   constexpr edge_size_type num_edges() const noexcept { return edges_size_; }
 
@@ -1053,12 +1052,15 @@ private: // CPO support via ADL (friend functions)
 
 public:
   /// @brief Get range of all edges.
-  /// @note Each undirected edge appears twice in iteration (once from each endpoint).
+  /// @note Each undirected edge appears twice in iteration (once from each endpoint); a self-loop appears once.
   /// @complexity O(1) to create range, O(V+E) to iterate.
-  edge_range       edges() { return {edge_iterator(*this, begin()), edge_iterator(*this, end()), this->edges_size_}; }
+  edge_range edges() {
+    auto& g = static_cast<graph_type&>(*this);
+    return {edge_iterator(g, begin()), edge_iterator(g, end())};
+  }
   const_edge_range edges() const {
-    return {const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).begin()),
-            const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).end()), this->edges_size_};
+    auto& g = static_cast<const graph_type&>(*this);
+    return {const_edge_iterator(g, begin()), const_edge_iterator(g, end())};
   }
 
 public: // Vertex Creation
-- 
2.43.0


From b95d91b16f69e9b0b55147a06c50f48aeb5fae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 39/50] fix: unlink an edge erased by
 undirected_adjacency_list::erase_edge

The edge was freed while both vertices' lists still referred to it, and
the returned iterator could refer to it from its other endpoint.
---
 .../detail/undirected_adjacency_list_impl.hpp          | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 38e79a4..0e91752 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1435,9 +1435,13 @@ template <typename EV,
           typename Alloc>
 typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edge_iterator
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
-  edge_type* uv = &*pos;
-  ++pos;
-  uv->~edge_type(); // unlinks from vertices
+  edge_type*          uv = &*pos;
+  const edge_iterator last(static_cast<graph_type&>(*this), end());
+  do {
+    ++pos;
+  } while (pos != last && &*pos == uv); // the edge may come next again, from its other endpoint
+  uv->unlink(this->vertices_[uv->list_owner_id()], this->vertices_[uv->list_target_id()]);
+  uv->~edge_type();
   this->edge_alloc_.deallocate(uv, 1);
   --this->edges_size_;
   return pos;
-- 
2.43.0


From c8cc4399523d32f34a6d4ffaf74d96dc1762e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 40/50] fix: swap undirected_adjacency_list edge iterators
 completely

The friend swap did not compile and left the graph pointer behind.
---
 include/graph/container/undirected_adjacency_list.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 91fe778..7500726 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -434,8 +434,9 @@ public:
     bool operator!=(const const_iterator& rhs) const noexcept;
 
     friend void swap(const_iterator& lhs, const_iterator& rhs) noexcept {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
 
     graph_type&       graph() { return *graph_; }
@@ -489,8 +490,9 @@ public:
     iterator  operator--(int);
 
     friend void swap(iterator& lhs, iterator& rhs) {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
   }; // end iterator
 
-- 
2.43.0


From 27a97bee90509673729b66614ca6dc94f1f42404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 41/50] fix: move an undirected_adjacency_list with its edges
 and edge count

Move assignment leaked the edges of the target, and both moves left the
edge count behind in the source.
---
 .../container/undirected_adjacency_list.hpp     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 7500726..d98e0cd 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -935,7 +935,11 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {}
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -944,7 +948,16 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      clear(); // the edges are not owned by the vertices
+      vertices_     = std::move(other.vertices_);
+      edges_size_   = std::exchange(other.edges_size_, 0);
+      vertex_alloc_ = std::move(other.vertex_alloc_);
+      edge_alloc_   = std::move(other.edge_alloc_);
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0


From 1a161a0be546e159672a345bd2b02016acd94ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 42/50] fix: let exceptions of edge values out of
 undirected_adjacency_list::create_edge

Constructing the edge copies the caller's value inside noexcept functions,
so an exception ended the program; the edge's memory is now released.
---
 .../detail/undirected_adjacency_list_impl.hpp | 12 +++----
 .../container/undirected_adjacency_list.hpp   | 34 ++++++++++++-------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 0e91752..406f1f1 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -485,7 +485,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid)
       : base_value_type(), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -499,7 +499,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -513,7 +513,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_id_type    uid,
                                                        vertex_id_type    vid,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val)), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -524,7 +524,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi)
       : base_value_type()
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -540,7 +540,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -556,7 +556,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_iterator   ui,
                                                        vertex_iterator   vi,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val))
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index d98e0cd..0b7bcc0 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -665,13 +665,13 @@ protected:
   ual_edge& operator=(ual_edge&) noexcept  = default;
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&);
 
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&);
 
   void link_front(vertex_type&, vertex_type&) noexcept;
   void link_back(vertex_type&, vertex_type&) noexcept;
@@ -1156,8 +1156,7 @@ public: // Edge Creation
   /// @complexity O(1).
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
+    edge_type*     uv  = make_edge(u, v);
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
@@ -1170,8 +1169,7 @@ public: // Edge Creation
   /// @complexity O(1).
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_type&& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
+    edge_type*     uv  = make_edge(u, v, std::move(val));
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
@@ -1187,12 +1185,24 @@ public: // Edge Creation
   requires std::constructible_from<EV, const EV2&>
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, const EV2& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
+    edge_type*     uv  = make_edge(u, v, val);
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
 
+private:
+  // allocate and construct an edge; nothing is kept if its construction throws
+  template <class... Args>
+  edge_type* make_edge(Args&&... args) {
+    edge_type* uv = this->edge_alloc_.allocate(1);
+    try {
+      return new (uv) edge_type(static_cast<graph_type&>(*this), std::forward<Args>(args)...);
+    } catch (...) {
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
+  }
+
 public: // Edge Removal
   /// @brief Erase an edge from the graph.
   /// @param pos Iterator to the edge to erase.
-- 
2.43.0


From cd30a798ea2d4a3002239e9c1bd4ff5ba4d7230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 43/50] fix: find and copy vertices when their number does not
 fit the id type

With as many vertices as the id type has values (256 for uint8_t ids),
find_vertex reported every vertex missing and copies had no edges.
---
 .../container/detail/undirected_adjacency_list_impl.hpp      | 5 +++--
 include/graph/container/undirected_adjacency_list.hpp        | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 406f1f1..22ac84f 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1104,8 +1104,9 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   auto& g = static_cast<graph_type&>(*this);
 
   // Copy edges - iterate through each vertex and copy the edges it owns to avoid duplicates
-  for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
-    const auto& src_vtx = other.vertices_[uid];
+  for (vertex_size_type i = 0; i < other.vertices_.size(); ++i) {
+    const auto&          src_vtx = other.vertices_[i];
+    const vertex_id_type uid     = static_cast<vertex_id_type>(i);
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 0b7bcc0..584f6e4 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1261,7 +1261,7 @@ constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<storage_type>(id) >= static_cast<storage_type>(g.vertices().size())) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
@@ -1281,7 +1281,7 @@ constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VCon
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<storage_type>(id) >= static_cast<storage_type>(g.vertices().size())) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
-- 
2.43.0


From 6d28efa1666350dd1fc2b1af8b9ddf4040d09536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 44/50] fix: undirected_adjacency_list members that did not
 compile when used

edge_front, neighbors_size, neighbors of a const graph and edge_id.
---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 22ac84f..3aa0189 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -758,7 +758,7 @@ template <typename EV,
           typename Alloc>
 typename ual_edge<EV, VV, GV, VId, VContainer, Alloc>::edge_id_type
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::edge_id(const graph_type& g) const noexcept {
-  return unordered_pair(list_owner_id(), list_target_id());
+  return edge_id_type(list_owner_id(), list_target_id());
 }
 
 
@@ -905,7 +905,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(graph_type& g) noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -916,7 +916,7 @@ template <typename EV,
           typename Alloc>
 const typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(const graph_type& g) const noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -1047,7 +1047,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbor_size_type
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors_size(const graph_type& g) const {
-  return size(edges(g));
+  return edges_.size();
 }
 
 template <typename EV,
@@ -1068,7 +1068,9 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::const_neighbor_range
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors(const graph_type& g, vertex_id_type uid) const {
-  return {const_neighbor_iterator(edges_.begin(g, uid)), const_neighbor_iterator(edges_.end(g, uid)), edges_.size()};
+  const edge_type* first = edges_.empty() ? nullptr : &edges_.front();
+  return {const_neighbor_iterator(vertex_edge_iterator(g, uid, first)),
+          const_neighbor_iterator(vertex_edge_iterator(g, uid)), edges_.size()};
 }
 
 
-- 
2.43.0


From 428800dc0caf74f82d97555e7bf0374c075d9618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 45/50] fix: an empty edge list makes an empty
 undirected_adjacency_list

The initializer list constructors made a graph with one vertex.
---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 3aa0189..3973936 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1194,6 +1194,9 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
       : vertices_(alloc), edge_alloc_(alloc) {
+  if (ilist.size() == 0)
+    return; // no vertices or edges to create
+
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
@@ -1222,6 +1225,9 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
       : vertices_(alloc), edge_alloc_(alloc) {
+  if (ilist.size() == 0)
+    return; // no vertices or edges to create
+
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
-- 
2.43.0


From 389044bdce1e9d62d11fa725591e809d0e7cbd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 46/50] fix: resize_vertices of undirected_adjacency_list
 erases the edges of removed vertices

Shrinking leaked them or left them attached to the remaining vertices with
an end that no longer exists; the overload with a value did not compile.
---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 4 +++-
 include/graph/container/undirected_adjacency_list.hpp       | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 3973936..43af437 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1511,6 +1511,7 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type n) {
+  remove_edges_from(n);
   this->vertices_.resize(n);
 }
 
@@ -1522,7 +1523,8 @@ template <typename EV,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type         n,
                                                                                          const vertex_value_type& val) {
-  this->vertices_.resize(n, val);
+  remove_edges_from(n);
+  this->vertices_.resize(n, vertex_type(this->vertices_, vertex_id_type(), val));
 }
 
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 584f6e4..c21c931 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1191,6 +1191,12 @@ public: // Edge Creation
   }
 
 private:
+  // erase the edges of the vertices from the given index on
+  void remove_edges_from(vertex_size_type i) {
+    for (; i < this->vertices_.size(); ++i)
+      this->vertices_[i].clear_edges(static_cast<graph_type&>(*this));
+  }
+
   // allocate and construct an edge; nothing is kept if its construction throws
   template <class... Args>
   edge_type* make_edge(Args&&... args) {
-- 
2.43.0


From 23004012b6ca36fea7173279ad64f13af409df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 47/50] fix: undirected_adjacency_list constructors throw on
 unordered edges without a leak

The documented exception was an assertion failure in debug builds, and the
edges made before an exception were leaked.
---
 .../detail/undirected_adjacency_list_impl.hpp          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 43af437..2755f79 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1086,7 +1086,8 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const base_undirected_adjacency_list& other) {
+      const base_undirected_adjacency_list& other)
+      : base_undirected_adjacency_list() { // the edges are released if an exception is thrown
   // Copy base class members
   edge_alloc_ = other.edge_alloc_;
 
@@ -1138,7 +1139,7 @@ requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
                std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the edges are released if an exception is thrown
   // Handle empty case - no vertices or edges to create
   if (vrng.empty() && ranges::empty(erng)) {
     return;
@@ -1193,7 +1194,7 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the edges are released if an exception is thrown
   if (ilist.size() == 0)
     return; // no vertices or edges to create
 
@@ -1224,7 +1225,7 @@ template <typename EV,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the edges are released if an exception is thrown
   if (ilist.size() == 0)
     return; // no vertices or edges to create
 
@@ -1292,7 +1293,6 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::throw_unordered_edges() const {
-  assert(false); // container must be sorted by edge_id.first
   throw std::invalid_argument("edges not ordered");
 }
 
-- 
2.43.0


From 888a99dbcc9d32bac984ce9ccbafb146fa6b3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 48/50] fix: undirected_adjacency_list with void edge or vertex
 values

Its default arguments are void, but functions taking a value by reference
made every such graph ill-formed.
---
 .../detail/undirected_adjacency_list_impl.hpp | 24 ++++++------
 .../container/undirected_adjacency_list.hpp   | 39 ++++++++++++-------
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 2755f79..d4ae56e 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -499,7 +499,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const edge_value_type& val)
+                                                       const edge_value_arg& val)
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -513,7 +513,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_id_type    uid,
                                                        vertex_id_type    vid,
-                                                       edge_value_type&& val)
+                                                       edge_value_arg&& val)
       : base_value_type(move(val)), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -540,7 +540,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const edge_value_type& val)
+                                                       const edge_value_arg& val)
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -556,7 +556,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_iterator   ui,
                                                        vertex_iterator   vi,
-                                                       edge_value_type&& val)
+                                                       edge_value_arg&& val)
       : base_value_type(move(val))
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -781,7 +781,7 @@ template <typename EV,
           typename Alloc>
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::ual_vertex([[maybe_unused]] vertex_set&  vertices,
                                                            [[maybe_unused]] vertex_index index,
-                                                           const vertex_value_type&      val)
+                                                           const vertex_value_arg&      val)
       : base_value_type(val) {}
 template <typename EV,
           typename VV,
@@ -791,7 +791,7 @@ template <typename EV,
           typename Alloc>
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::ual_vertex([[maybe_unused]] vertex_set&  vertices,
                                                            [[maybe_unused]] vertex_index index,
-                                                           vertex_value_type&&           val) noexcept
+                                                           vertex_value_arg&&           val) noexcept
       : base_value_type(move(val)) {}
 
 
@@ -1022,7 +1022,7 @@ ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::create_edge(graph_type& g, verte
 
 template <typename EV, typename VV, typename GV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::vertex_edge_iterator
-ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::create_edge(graph_type& g, vertex_type& v, edge_value_type&& val) {
+ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::create_edge(graph_type& g, vertex_type& v, edge_value_arg&& val) {
   edge_type* uv = g.edge_alloc_.allocate(1);
   new (uv) edge_type(g, *this, v, move(val));
   ++g.edges_size_;
@@ -1031,7 +1031,7 @@ ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::create_edge(graph_type& g, verte
 
 template <typename EV, typename VV, typename GV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::vertex_edge_iterator
-ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::create_edge(graph_type& g, vertex_type& v, const edge_value_type& val) {
+ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::create_edge(graph_type& g, vertex_type& v, const edge_value_arg& val) {
   edge_type* uv = g.edge_alloc_.allocate(1);
   new (uv) edge_type(g, *this, v, val);
   ++g.edges_size_;
@@ -1192,7 +1192,7 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_arg>>& ilist,
       const allocator_type&                                                           alloc)
       : base_undirected_adjacency_list(alloc) { // the edges are released if an exception is thrown
   if (ilist.size() == 0)
@@ -1522,7 +1522,7 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type         n,
-                                                                                         const vertex_value_type& val) {
+                                                                                         const vertex_value_arg& val) {
   remove_edges_from(n);
   this->vertices_.resize(n, vertex_type(this->vertices_, vertex_id_type(), val));
 }
@@ -1679,7 +1679,7 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::undirected_adjacency_list(
-      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist, const Alloc& alloc)
+      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_arg>>& ilist, const Alloc& alloc)
       : base_type(ilist, alloc) {}
 
 template <typename EV,
@@ -2023,7 +2023,7 @@ undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adja
 // Initializer list constructors
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
-      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist, const Alloc& alloc)
+      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_arg>>& ilist, const Alloc& alloc)
       : base_type(ilist, alloc) {}
 
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index c21c931..7a23625 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -213,6 +213,13 @@ template <typename EV,
           typename ListT>
 class ual_vertex_edge_list_link;
 
+// Stands in for a void EV or VV in the functions that take a value. There are no objects of it.
+struct ual_no_value {
+  ual_no_value() = delete;
+};
+template <typename T>
+using ual_value_arg_t = std::conditional_t<std::is_void_v<T>, ual_no_value, T>;
+
 ///-------------------------------------------------------------------------------------
 /// ual_edge_value
 ///
@@ -644,6 +651,7 @@ public:
 
   using edge_id_type         = pair<vertex_id_type, vertex_id_type>;
   using edge_value_type      = EV;
+  using edge_value_arg       = ual_value_arg_t<EV>;
   using edge_type            = ual_edge<EV, VV, GV, VId, VContainer, Alloc>;
   using edge_allocator_type  = typename allocator_traits<Alloc>::template rebind_alloc<edge_type>;
   using edge_index           = VId;
@@ -666,12 +674,12 @@ protected:
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
   ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid);
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&);
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_arg&);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_arg&&);
 
   ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi);
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&);
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_arg&);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_arg&&);
 
   void link_front(vertex_type&, vertex_type&) noexcept;
   void link_back(vertex_type&, vertex_type&) noexcept;
@@ -772,6 +780,7 @@ public: // Type Aliases
 
   using vertex_type            = ual_vertex<EV, VV, GV, VId, VContainer, Alloc>;
   using vertex_value_type      = VV;
+  using vertex_value_arg       = ual_value_arg_t<VV>;
   using vertex_id_type         = VId;
   using vertex_index_type      = VId;
   using vertex_allocator_type  = typename allocator_traits<Alloc>::template rebind_alloc<vertex_type>;
@@ -786,6 +795,7 @@ public: // Type Aliases
 
   using edge_type            = ual_edge<EV, VV, GV, VId, VContainer, Alloc>;
   using edge_value_type      = EV;
+  using edge_value_arg       = ual_value_arg_t<EV>;
   using edge_allocator_type  = typename allocator_traits<Alloc>::template rebind_alloc<edge_type>;
   using edge_id_type         = pair<vertex_id_type, vertex_id_type>; // <from,to>
   using edge_size_type       = typename edge_type::edge_size_type;
@@ -968,7 +978,7 @@ protected: // Constructors (protected - for derived class use only)
         const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc);
 
   // Initializer list constructors
-  base_undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+  base_undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_arg>>& ilist,
                                  const allocator_type&                                                           alloc);
 
   base_undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist,
@@ -1091,7 +1101,7 @@ public: // Vertex Creation
   /// @param val Value to move into the vertex.
   /// @return Iterator to the newly created vertex.
   /// @complexity O(1) amortized
-  vertex_iterator create_vertex(vertex_value_type&& val) {
+  vertex_iterator create_vertex(vertex_value_arg&& val) {
     this->vertices_.push_back(
           vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size()), std::move(val)));
     return this->vertices_.begin() + static_cast<vertex_difference_type>(this->vertices_.size() - 1);
@@ -1128,7 +1138,7 @@ public: // Edge Creation
   /// @param val Edge value to move.
   /// @return Iterator to the newly created edge.
   /// @complexity O(1).
-  vertex_edge_iterator create_edge(vertex_id_type uid, vertex_id_type vid, edge_value_type&& val) {
+  vertex_edge_iterator create_edge(vertex_id_type uid, vertex_id_type vid, edge_value_arg&& val) {
     vertex_iterator ui = this->vertices_.begin() + uid;
     vertex_iterator vi = this->vertices_.begin() + vid;
     return create_edge(ui, vi, std::move(val));
@@ -1167,7 +1177,7 @@ public: // Edge Creation
   /// @param val Edge value to move.
   /// @return Iterator to the newly created edge.
   /// @complexity O(1).
-  vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_type&& val) {
+  vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_arg&& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = make_edge(u, v, std::move(val));
     ++this->edges_size_;
@@ -1239,7 +1249,7 @@ protected: // Utilities
   /// @brief Resize the vertex container with default value.
   /// @param n New size.
   /// @param val Default value for new vertices.
-  void resize_vertices(vertex_size_type n, const vertex_value_type& val);
+  void resize_vertices(vertex_size_type n, const vertex_value_arg& val);
 };
 
 ///-------------------------------------------------------------------------------------
@@ -1387,6 +1397,7 @@ public:
   using vertex_id_type        = VId;
   using vertex_index          = VId;
   using vertex_value_type     = VV;
+  using vertex_value_arg  = ual_value_arg_t<VV>;
 
   using edge_value_type      = EV;
   using edge_type            = ual_edge<EV, VV, GV, VId, VContainer, Alloc>;
@@ -1423,8 +1434,8 @@ public:
   ual_vertex& operator=(ual_vertex&&) noexcept = default;
 
   ual_vertex(vertex_set& vertices, vertex_index index);
-  ual_vertex(vertex_set& vertices, vertex_index index, const vertex_value_type&);
-  ual_vertex(vertex_set& vertices, vertex_index index, vertex_value_type&&) noexcept;
+  ual_vertex(vertex_set& vertices, vertex_index index, const vertex_value_arg&);
+  ual_vertex(vertex_set& vertices, vertex_index index, vertex_value_arg&&) noexcept;
 
 public:
 #  if 0
@@ -1683,6 +1694,7 @@ public:
 
   using edge_type            = ual_edge<EV, VV, GV, VId, VContainer, Alloc>;
   using edge_value_type      = EV;
+  using edge_value_arg       = ual_value_arg_t<EV>;
   using edge_allocator_type  = typename allocator_traits<Alloc>::template rebind_alloc<edge_type>;
   using edge_id_type         = pair<vertex_id_type, vertex_id_type>; // <from,to>
   using edge_size_type       = typename edge_type::edge_size_type;
@@ -1845,7 +1857,7 @@ public:
   // clang-format off
   undirected_adjacency_list(
     const initializer_list<
-          tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+          tuple<vertex_id_type, vertex_id_type, edge_value_arg>>& ilist,
     const Alloc&                                                     alloc = Alloc());
   // clang-format on
 
@@ -1977,6 +1989,7 @@ public:
 
   using edge_type            = ual_edge<EV, VV, void, VId, VContainer, Alloc>;
   using edge_value_type      = EV;
+  using edge_value_arg       = ual_value_arg_t<EV>;
   using edge_allocator_type  = typename allocator_traits<Alloc>::template rebind_alloc<edge_type>;
   using edge_id_type         = pair<vertex_id_type, vertex_id_type>;
   using edge_size_type       = typename edge_type::edge_size_type;
@@ -2030,7 +2043,7 @@ public:
   ///              target_vertex_id and the edge value.
   /// @param alloc Allocator.
   ///
-  undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+  undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_arg>>& ilist,
                             const Alloc& alloc = Alloc());
 
   /// Constructor for easy creation of a graph that takes an initializer
-- 
2.43.0


From d568a9897214c75bee51f09689dbb618219ddcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 49/50] fix: range constructors of undirected_adjacency_list
 without graph or vertex value

Those without a graph value were declared but never defined, and the one
taking only edges did not compile without a vertex value.
---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 3 +--
 include/graph/container/undirected_adjacency_list.hpp       | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index d4ae56e..b82800b 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1593,8 +1593,7 @@ undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::undirected_adjace
                                                                               const EProj& eproj, 
                                                                               const GV_&   gv, 
                                                                               const Alloc& alloc)
-      : undirected_adjacency_list(erng, vector<int>(), eproj, [](auto) 
-{ return copyable_vertex_t<VId, VV>{.id = VId(), .value = VV{}}; }, gv, alloc)
+      : undirected_adjacency_list(erng, vector<copyable_vertex_t<VId, VV>>(), eproj, std::identity(), gv, alloc)
 // clang-format on
 {}
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 7a23625..42d33c3 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -2027,11 +2027,13 @@ public:
                             const VRng&  vrng,
                             const EProj& eproj = {},
                             const VProj& vproj = {},
-                            const Alloc& alloc = Alloc());
+                            const Alloc& alloc = Alloc())
+        : base_type(erng, vrng, eproj, vproj, alloc) {}
 
   template <typename ERng, typename EProj = std::identity>
   requires ranges::forward_range<ERng> && std::regular_invocable<EProj, ranges::range_reference_t<ERng>>
-  undirected_adjacency_list(const ERng& erng, const EProj& eproj = {}, const Alloc& alloc = Alloc());
+  undirected_adjacency_list(const ERng& erng, const EProj& eproj = {}, const Alloc& alloc = Alloc())
+        : base_type(erng, vector<copyable_vertex_t<VId, VV>>(), eproj, std::identity(), alloc) {}
 
   /// Constructor for easy creation of a graph that takes an initializer
   /// list with edge values.
-- 
2.43.0


From 9267f3ad0a6eecb97aa164306935fe52202e698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 50/50] fix: edge list descriptors with a floating point value
 can be ordered

operator<=> returned different comparison categories for ids and value, so it
did not compile for e.g. edge_descriptor<int, double>.
---
 .../graph/edge_list/edge_list_descriptor.hpp  | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/graph/edge_list/edge_list_descriptor.hpp b/include/graph/edge_list/edge_list_descriptor.hpp
index 0fe6729..d336d31 100644
--- a/include/graph/edge_list/edge_list_descriptor.hpp
+++ b/include/graph/edge_list/edge_list_descriptor.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <type_traits>
+#include <compare>
 #include <concepts>
 #include <functional>
 #include <utility>
@@ -71,14 +72,19 @@ public:
   }
 
   constexpr auto operator<=>(const edge_descriptor& other) const noexcept {
-    if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
-      return cmp;
-    if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
-      return cmp;
-    if constexpr (!std::is_void_v<EV>) {
-      return value_.get() <=> other.value_.get();
+    if constexpr (std::is_void_v<EV>) {
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return cmp;
+      return target_id_ <=> other.target_id_;
     } else {
-      return std::strong_ordering::equal;
+      // IDs and values may be ordered differently, e.g. strongly (int) and partially (double)
+      using ordering = std::common_comparison_category_t<decltype(source_id_ <=> other.source_id_),
+                                                         decltype(value_.get() <=> other.value_.get())>;
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return ordering(cmp);
+      if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
+        return ordering(cmp);
+      return ordering(value_.get() <=> other.value_.get());
     }
   }
 
-- 
2.43.0

