From 607a8c75463d9d77df4a31a3ce7c5f358d3a3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 01/63] fix: container_view::at() accepts the negative position
 of the first element

---
 src/library/include/graph/container_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/graph/container_view.hpp b/src/library/include/graph/container_view.hpp
index 7b46456..192993a 100644
--- a/src/library/include/graph/container_view.hpp
+++ b/src/library/include/graph/container_view.hpp
@@ -76,7 +76,7 @@ namespace map_matching_2::graph {
 
                 return operator[](next(begin(), pos));
             } else if (pos < 0) {
-                if (std::abs(pos) >= size()) {
+                if (std::abs(pos) > size()) {
                     throw std::invalid_argument{std::format("reverse pos {} out of range, size: {}", pos, size())};
                 }
 
-- 
2.43.0


From 443d5d56fcdb5432085337066f2bebeee3aa6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 02/63] fix: remove_vertex() of a bidirectional graph refuses
 vertices with ingoing edges

---
 src/library/include/graph/adjacency_list.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index fcc3057..693aecd 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1014,6 +1014,12 @@ namespace map_matching_2::graph {
                 throw std::runtime_error("vertex is still connected.");
             }
 
+            if constexpr (is_bidirectional_v) {
+                if (not in_edges_view(vertex).empty()) {
+                    throw std::runtime_error("vertex is still connected.");
+                }
+            }
+
             vertices.erase(vertex);
         }
 
-- 
2.43.0


From 9414401f7af9cf175b448ad709cce5e641258dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 03/63] fix: simplification keeps the original edges until the
 merged edge is in place

An allocation failure between moving the geometry out of the original edges and
adding the merged edge lost that geometry when the simplification was resumed.
---
 .../include/geometry/network/network_import.hpp        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index bb69636..641b228 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -279,17 +279,17 @@ namespace map_matching_2::geometry::network {
             edge_data_type &source_edge = graph.get_edge_data(in_edge);
             edge_data_type &target_edge = graph.get_edge_data(out_edge);
 
-            // merge the edges
+            // merge copies of the edges, the originals need to stay intact in case an allocation fails
             this->tag_helper().merge_edge_tags(source_edge.id, target_edge.id);
-            edge_data_type new_edge = edge_data_type::merge(std::move(source_edge), std::move(target_edge));
+            edge_data_type new_edge = edge_data_type::merge(edge_data_type{source_edge}, edge_data_type{target_edge});
+
+            // add newly merged edge first, this is the last operation that may fail
+            graph.add_edge(source_vertex_in, target_vertex_out, std::move(new_edge));
 
             // remove the original edges
             graph.remove_edge(in_edge);
             graph.remove_edge(out_edge);
 
-            // add newly merged edge in place of the original edges
-            graph.add_edge(source_vertex_in, target_vertex_out, std::move(new_edge));
-
             if (graph.degree(target_vertex_in) == 0) {
                 // only remove vertex if all edges were previously removed
                 graph.remove_vertex(target_vertex_in);
-- 
2.43.0


From ae4f823cb8a3f4f107b8aef0e3f52927e1d2c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 04/63] fix: resumed simplification does not skip vertices when
 nothing was merged before

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 641b228..6084d2c 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -66,7 +66,7 @@ namespace map_matching_2::geometry::network {
         constexpr ~network_import() = default;
 
         void simplify(const bool simplify_network_complete = true) {
-            bool was_running = _simplify_running;
+            bool was_running = _simplify_running and _simplify_vertex_set;
             _simplify_running = true;
 
             graph_type &graph = this->graph();
@@ -80,7 +80,7 @@ namespace map_matching_2::geometry::network {
             for (vertex_val = vertex_desc; vertex_desc != vertices_v.end(); vertex_desc = vertex_val) {
                 vertex_val = vertices_v.next(vertex_val);
 
-                if (was_running and _simplify_vertex_set) {
+                if (was_running) {
                     const vertex_size_type vertex_index = graph.vertex_index(vertex_desc);
                     if (vertex_index != _simplify_vertex) {
                         // skip all vertices from the previous run
-- 
2.43.0


From 454a18d222d447115f49b85250fd961f8eb3fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 05/63] fix: osm-aware simplification only merges a vertex when
 all its edges can be merged

Merging only one direction left a vertex whose remaining edges had lost their
following edges, so that direct routes were no longer found.
---
 src/library/include/geometry/network/network_import.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 6084d2c..1b1e333 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -438,6 +438,11 @@ namespace map_matching_2::geometry::network {
                     }
                 }
             }
+
+            if (merge_edges.size() != in_edges_v.size()) {
+                // not all edges of the vertex can be merged, the vertex is still needed for routing
+                merge_edges.clear();
+            }
         }
 
         class vertex_visitor : public graph::visitor {
-- 
2.43.0


From 5969e07c55873ec735d7424be4fb59dc95e2b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 06/63] fix: remove_unconnected_components() follows edges in
 both directions

Only outgoing edges were followed, so one-way roads leading into a component
were treated as components of their own and removed; an empty network crashed.
---
 .../geometry/network/network_import.hpp       | 48 ++++++++++++-------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 1b1e333..74472f6 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -126,12 +126,40 @@ namespace map_matching_2::geometry::network {
                 const auto vertex_index = this->graph().vertex_index(it);
                 if (not visited.contains(vertex_index)) {
                     auto &discovered = components.emplace_back(discovered_type{});
-                    vertex_visitor vertex_visitor{discovered};
 
-                    graph::breadth_first_search(this->graph(), it, visited, queue, vertex_visitor);
+                    // weakly connected, edges need to be followed in both directions
+                    visited.emplace(vertex_index);
+                    queue.emplace(it);
+                    while (not queue.empty()) {
+                        const vertex_descriptor vertex_desc = queue.front();
+                        queue.pop();
+                        discovered.emplace_back(vertex_desc);
+
+                        const auto discover = [&](const vertex_descriptor &adjacent_desc) {
+                            if (visited.emplace(this->graph().vertex_index(adjacent_desc)).second) {
+                                queue.emplace(adjacent_desc);
+                            }
+                        };
+
+                        const auto out_edges_v = this->graph().out_edges_view(vertex_desc);
+                        for (auto out_it = out_edges_v.begin();
+                             out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
+                            discover(this->graph().target(out_edges_v[out_it]));
+                        }
+
+                        const auto in_edges_v = this->graph().in_edges_view(vertex_desc);
+                        for (auto in_it = in_edges_v.begin();
+                             in_it != in_edges_v.end(); in_it = in_edges_v.next(in_it)) {
+                            discover(this->graph().source(in_edges_v[in_it]));
+                        }
+                    }
                 }
             }
 
+            if (components.empty()) {
+                return;
+            }
+
             const auto component_comparator = [](const auto &a, const auto &b) {
                 return a.size() < b.size();
             };
@@ -445,22 +473,6 @@ namespace map_matching_2::geometry::network {
             }
         }
 
-        class vertex_visitor : public graph::visitor {
-
-        public:
-            explicit constexpr vertex_visitor(std::vector<vertex_descriptor> &discovered)
-                : _discovered{discovered} {}
-
-            template<typename Graph>
-            void discover_vertex(const Graph &graph, typename Graph::vertex_descriptor vertex_desc) {
-                _discovered.emplace_back(vertex_desc);
-            }
-
-        private:
-            std::vector<vertex_descriptor> &_discovered;
-
-        };
-
     };
 
 }
-- 
2.43.0


From 3604b8f7ee676933f22975a5c9451e108c88b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 07/63] fix: remove_duplicate_nodes() joins all nodes with the
 same coordinates

After two nodes were joined and considered for omission, a third node with the
same coordinates was treated as a new node and stayed unconnected.
---
 .../geometry/network/network_import.hpp       | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 74472f6..39389a6 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -186,6 +186,8 @@ namespace map_matching_2::geometry::network {
             using in_edge_descriptor = typename graph_type::in_edge_descriptor;
 
             boost::unordered_flat_map<point_type, vertex_descriptor> node_map;
+            boost::unordered_flat_set<point_type> duplicate_points;
+            std::vector<vertex_descriptor> duplicate_vertices;
 
             std::vector<std::pair<edge_descriptor, edge_descriptor>> adjacent_edges;
             std::vector<std::pair<edge_descriptor, edge_descriptor>> merge_edges;
@@ -241,24 +243,26 @@ namespace map_matching_2::geometry::network {
                     assert(graph.degree(vertex_desc) == 0);
                     graph.remove_vertex(vertex_desc);
 
-                    if (simplify) {
-                        // check if current node can be omitted
-                        if (_is_mergeable(existing_vertex_desc, adjacent_edges)) {
-                            _populate_merges(existing_vertex_desc, merge_edges, simplify_network_complete);
-
-                            if (not merge_edges.empty()) {
-                                for (const auto &merge_edge : merge_edges) {
-                                    _merge(merge_edge.first, merge_edge.second);
-                                }
+                    if (duplicate_points.emplace(it->first).second) {
+                        duplicate_vertices.emplace_back(existing_vertex_desc);
+                    }
+                } else {
+                    node_map.emplace(point, vertex_desc);
+                }
+            }
 
-                                merge_edges.clear();
-                            }
+            if (simplify) {
+                // only after all duplicates were joined, check if the remaining nodes can be omitted
+                for (const vertex_descriptor duplicate_vertex : duplicate_vertices) {
+                    if (_is_mergeable(duplicate_vertex, adjacent_edges)) {
+                        _populate_merges(duplicate_vertex, merge_edges, simplify_network_complete);
 
-                            node_map.erase(it);
+                        for (const auto &merge_edge : merge_edges) {
+                            _merge(merge_edge.first, merge_edge.second);
                         }
+
+                        merge_edges.clear();
                     }
-                } else {
-                    node_map.emplace(point, vertex_desc);
                 }
             }
 
-- 
2.43.0


From 146d2fe98be21fdf7b51126454659c3a7fcc5434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 08/63] fix: remove_duplicate_edges() does not reference
 removed edges

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 39389a6..1bb0b2c 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -287,9 +287,9 @@ namespace map_matching_2::geometry::network {
                 if (edge_set.contains(edge)) {
                     graph.remove_edge(edge_desc);
                     reindex = true;
+                } else {
+                    edge_set.emplace(edge);
                 }
-
-                edge_set.emplace(edge);
             }
 
             if (reindex) {
-- 
2.43.0


From 02586a9972c3f3e51f518335bc63f15a966df843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 09/63] fix: remove_edge() accepts a descriptor that lives in
 the neighbour list it edits

---
 src/library/include/graph/adjacency_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index 693aecd..ce15569 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1131,7 +1131,7 @@ namespace map_matching_2::graph {
             }
         }
 
-        void remove_edge(const edge_descriptor &edge_desc) requires
+        void remove_edge(const edge_descriptor edge_desc) requires
             (not util::is_random_access_v<edge_container> and
                 not util::is_random_access_v<out_edge_container> and
                 (not is_bidirectional_v or not util::is_random_access_v<in_edge_container>)) {
-- 
2.43.0


From b9ea8fee64de38a433fe07eac4ef85ce9fde0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 10/63] fix: resumed simplification continues when the marked
 vertex was already merged away

---
 src/library/include/geometry/network/network_import.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 1bb0b2c..2985240 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -82,7 +82,7 @@ namespace map_matching_2::geometry::network {
 
                 if (was_running) {
                     const vertex_size_type vertex_index = graph.vertex_index(vertex_desc);
-                    if (vertex_index != _simplify_vertex) {
+                    if (vertex_index < _simplify_vertex) {
                         // skip all vertices from the previous run
                         continue;
                     } else {
-- 
2.43.0


From f634f350d5b0e650dc89fad1153cd2145c6d6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 11/63] fix: a_star_shortest_paths() returns no path when the
 goal was not reached

The missing predecessor of the goal was default-inserted as vertex 0, which
made up a path over vertex 0.
---
 src/library/include/geometry/network/network.hpp | 10 ++++++----
 src/library/include/matching/algorithm/route.hpp |  5 +++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index a1721e4..2404098 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -280,10 +280,12 @@ namespace map_matching_2::geometry::network {
                     predecessors, distances, colors, queue, visitor, weight_func, heuristic_func);
 
             std::list<vertex_descriptor> shortest_path;
-            for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
-                shortest_path.emplace_front(vertex);
-                if (predecessors[vertex] == vertex)
-                    break;
+            if (predecessors.contains(goal)) {
+                for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
+                    shortest_path.emplace_front(vertex);
+                    if (predecessors[vertex] == vertex)
+                        break;
+                }
             }
 
             predecessors.clear();
diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 1101e13..82ef79c 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -124,6 +124,11 @@ namespace map_matching_2::matching {
                 }
 
                 for (const auto &shortest_path : shortest_paths) {
+                    if (shortest_path.empty()) {
+                        // goal was not reached
+                        continue;
+                    }
+
                     route_cache_key_type new_key{shortest_path.front(), shortest_path.back()};
 
                     auto new_search = _route_cache.find(new_key);
-- 
2.43.0


From 80d57c94ce3481c2269429b8effeb63ac092f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 12/63] fix: the distance limit of a search skips the edge, not
 the vertex behind it

A too long edge painted its target as finished, so that a shorter way to the
same vertex found later was ignored and reachable goals were not reported.
---
 .../include/geometry/network/network.hpp      | 25 +++++++------------
 .../graph/algorithm/a_star_shortest_path.hpp  |  4 +++
 .../algorithm/dijkstra_shortest_path.hpp      |  4 +++
 .../include/graph/algorithm/visitor.hpp       |  5 ++++
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 2404098..7a058a7 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -225,7 +225,7 @@ namespace map_matching_2::geometry::network {
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
             goals_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goals, goals_found, distances, colors, weight_func
+                    max_distance, max_distance_factor, goals, goals_found, distances, weight_func
             };
 
             graph::dijkstra_shortest_path(this->graph(), start,
@@ -273,7 +273,7 @@ namespace map_matching_2::geometry::network {
             };
 
             goal_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goal, distances, colors, weight_func
+                    max_distance, max_distance_factor, goal, distances, weight_func
             };
 
             graph::a_star_shortest_path(this->graph(), start, goal,
@@ -412,27 +412,23 @@ namespace map_matching_2::geometry::network {
             constexpr base_max_distance_visitor(const distance_type max_distance,
                     const double max_distance_factor,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
                 : _max_distance{max_distance}, _max_distance_factor{max_distance_factor}, _distances{distances},
-                _colors{colors}, _weight_func{weight_func} {}
+                _weight_func{weight_func} {}
 
-            void examine_edge(const graph_type &graph,
+            [[nodiscard]] bool skip_edge(const graph_type &graph,
                     const typename graph::graph_traits<graph_type>::edge_descriptor &edge_desc) {
                 if (_max_distance_factor < 0.0) {
                     // effectively disable this method if the max-distance-factor is disabled
-                    return;
+                    return false;
                 }
 
                 const vertex_descriptor &source = graph.source(edge_desc);
                 const auto distance_source = _distances[source];
                 const auto weight = _weight_func(graph.get_edge_data(edge_desc));
                 const auto distance_target = distance_source + weight;
-                if (distance_target > _max_distance_factor * _max_distance) {
-                    // disable target
-                    const vertex_descriptor &target = graph.target(edge_desc);
-                    _colors[target] = graph::color::BLACK;
-                }
+                // only this edge is too far, the target may still be reached over a shorter one
+                return distance_target > _max_distance_factor * _max_distance;
             }
 
         private:
@@ -440,7 +436,6 @@ namespace map_matching_2::geometry::network {
             const double _max_distance_factor;
 
             graph::distances_type<length_type> &_distances;
-            graph::colors_type &_colors;
             const WeightFunc &_weight_func;
 
         };
@@ -456,9 +451,8 @@ namespace map_matching_2::geometry::network {
                     const boost::unordered_flat_set<vertex_descriptor> &goals,
                     boost::unordered_flat_set<vertex_descriptor> &goals_found,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goals{goals}, _goals_found{goals_found} {}
 
             void finish_vertex(const graph_type &graph,
@@ -488,9 +482,8 @@ namespace map_matching_2::geometry::network {
                     const double max_distance_factor,
                     const vertex_descriptor &goal,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goal{goal} {}
 
             void finish_vertex(const graph_type &graph,
diff --git a/src/library/include/graph/algorithm/a_star_shortest_path.hpp b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
index 35278ed..7b3d5c4 100644
--- a/src/library/include/graph/algorithm/a_star_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
@@ -82,6 +82,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (visitor.skip_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
index 61d2190..57e44d5 100644
--- a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
@@ -81,6 +81,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (visitor.skip_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/visitor.hpp b/src/library/include/graph/algorithm/visitor.hpp
index 4b5cdf6..4cb3eb6 100644
--- a/src/library/include/graph/algorithm/visitor.hpp
+++ b/src/library/include/graph/algorithm/visitor.hpp
@@ -38,6 +38,11 @@ namespace map_matching_2::graph {
         template<typename Graph>
         void examine_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) {}
 
+        template<typename Graph>
+        [[nodiscard]] bool skip_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) {
+            return false;
+        }
+
         template<typename Graph>
         void finish_vertex(const Graph &graph, const typename Graph::vertex_descriptor &vertex_desc) {}
 
-- 
2.43.0


From fcaeebcae6399864cbaa0a1172bb1c8a5334507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 13/63] fix: roads without extent have zero length in searches
 and in the network length

Edges between nodes at equal coordinates have no length (infinity when eager,
an exception otherwise), so they were impassable for every bounded search.
---
 src/library/include/geometry/network/network.hpp     | 12 ++++++++----
 .../include/geometry/network/network_base.hpp        |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 7a058a7..9313b2c 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -219,8 +219,10 @@ namespace map_matching_2::geometry::network {
                 graph::distances_type<length_type> &distances,
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
-            constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+            constexpr auto weight_func = [](const edge_data_type &edge) constexpr -> length_type {
+                return edge.rich_line.has_length()
+                        ? edge.rich_line.length()
+                        : geometry::default_float_type<length_type>::v0;
             };
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
@@ -261,8 +263,10 @@ namespace map_matching_2::geometry::network {
                 graph::distances_type<length_type> &distances,
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
-            constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+            constexpr auto weight_func = [](const edge_data_type &edge) constexpr -> length_type {
+                return edge.rich_line.has_length()
+                        ? edge.rich_line.length()
+                        : geometry::default_float_type<length_type>::v0;
             };
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
diff --git a/src/library/include/geometry/network/network_base.hpp b/src/library/include/geometry/network/network_base.hpp
index 7114930..201a14f 100644
--- a/src/library/include/geometry/network/network_base.hpp
+++ b/src/library/include/geometry/network/network_base.hpp
@@ -105,7 +105,9 @@ namespace map_matching_2::geometry::network {
             const auto edges_v = this->graph().edges_view();
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
-                length += edge.rich_line.length();
+                if (edge.rich_line.has_length()) {
+                    length += edge.rich_line.length();
+                }
             }
             return length;
         }
-- 
2.43.0


From 5d3caab1508c103cab59f84a6014bea50a4b43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 14/63] fix: extract_route() keeps the shortest parallel road
 when it has no extent

---
 src/library/include/geometry/network/network.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 9313b2c..f79513d 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -323,11 +323,11 @@ namespace map_matching_2::geometry::network {
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
                         if (this->graph().target(it) == *next_vertex_it) {
                             const edge_data_type &edge = this->graph().get_edge_data(it);
-                            if (not edge.rich_line.empty() and
-                                (not edge.rich_line.has_length() or edge.rich_line.length() < shortest_length)) {
-                                if (edge.rich_line.has_length()) {
-                                    shortest_length = edge.rich_line.length();
-                                }
+                            const length_type length = edge.rich_line.has_length()
+                                    ? edge.rich_line.length()
+                                    : geometry::default_float_type<length_type>::v0;
+                            if (not edge.rich_line.empty() and length < shortest_length) {
+                                shortest_length = length;
                                 rich_line_ptr = &edge.rich_line;
                             }
                         }
-- 
2.43.0


From f477924292c5af56bc0f7a82e19426b632890854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 15/63] fix: lazy direction at a position no longer always
 throws

_initialize_direction threw out_of_range even after initializing both azimuths.
---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..c57b47d 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -437,6 +437,7 @@ namespace map_matching_2::geometry {
             if (pos + 1 < _azimuths.size()) {
                 _initialize_azimuth(rich_line, pos);
                 _initialize_azimuth(rich_line, pos + 1);
+                return;
             }
 
             throw std::out_of_range(std::format(
-- 
2.43.0


From a1e4de4ee22c224bce0ae4e2dd7e7e6cf846477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 16/63] fix: sub_data keeps whole-line data only for the whole
 line

'to' is already decremented to a segment index, so comparing 'to + 1' kept length,
azimuth and directions of the full line for a line that misses the last segment.
---
 .../geometry/rich_type/rich_line_data.hpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index c57b47d..c8e065e 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -477,10 +477,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -499,10 +499,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From ee46b3f61f8d36aa3fe9b5506664a1ec8f6605c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 17/63] fix: erasing the last point of a rich line updates its
 azimuth

The size is read after the erase, so the last position equals the size.
---
 src/library/include/geometry/rich_type/eager_rich_line.hpp | 2 +-
 src/library/include/geometry/rich_type/lazy_rich_line.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 96f2bf4..9799b8b 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -316,7 +316,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (rebuild) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_rebuild(*this, true, azimuth, true);
             }
         }
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b60a459..b67ef70 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -306,7 +306,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (invalidate) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_invalidate(true, azimuth, true, false, false);
             }
         }
-- 
2.43.0


From ac2a1af7f1660cbed2e7876eef750b01bc47b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 18/63] fix: computing directions initializes the azimuth of a
 single segment too

A merged lazy line of one segment kept an uninitialized azimuth, which an eager line
converted from it then reported as not available.
---
 .../include/geometry/rich_type/rich_line_data.hpp  | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index c8e065e..ce56345 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -403,20 +403,18 @@ namespace map_matching_2::geometry {
 
                 _compute_azimuths(rich_line);
 
+                for (std::size_t i = 0; i < _azimuths.size(); ++i) {
+                    _initialize_azimuth(rich_line, i);
+                }
+
                 if (_azimuths.size() >= 2) {
                     bool has_directions = false;
                     angle_type directions = default_float_type<angle_type>::v0;
                     angle_type absolute_directions = default_float_type<angle_type>::v0;
 
                     for (std::size_t i = 0; i < _azimuths.size() - 1; ++i) {
-                        angle_type &azimuth_a = _azimuths[i];
-                        angle_type &azimuth_b = _azimuths[i + 1];
-                        if (not initialized(azimuth_a)) {
-                            azimuth_a = _compute_segment_azimuth(rich_line, i);
-                        }
-                        if (not initialized(azimuth_b)) {
-                            azimuth_b = _compute_segment_azimuth(rich_line, i + 1);
-                        }
+                        const angle_type &azimuth_a = _azimuths[i];
+                        const angle_type &azimuth_b = _azimuths[i + 1];
                         if (valid(azimuth_a) and valid(azimuth_b)) {
                             angle_type direction = geometry::direction_deg(azimuth_a, azimuth_b);
                             directions += direction;
-- 
2.43.0


From 8b008e4ddfb2b796a040fd9b35f97095b7928453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 19/63] fix: assigning from another rich line representation
 drops the old derived data

The assignments from plain lines kept the cached data of the former line, those from
lazy and eager lines appended the segment data to the former one.
---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp       | 3 +++
 src/library/include/geometry/rich_type/eager_rich_line.hpp     | 3 +++
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp        | 1 +
 src/library/include/geometry/rich_type/lazy_rich_line.hpp      | 1 +
 src/library/include/geometry/rich_type/rich_line_data.hpp      | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 8747488..43913ff 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -130,6 +130,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         eager_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -143,6 +144,8 @@ namespace map_matching_2::geometry {
             multi_rich_line_data_base_type::_azimuth = other.azimuth();
             multi_rich_line_data_base_type::_directions = other.directions();
             multi_rich_line_data_base_type::_absolute_directions = other.absolute_directions();
+            multi_rich_line_data_base_type::_lengths.clear();
+            multi_rich_line_data_base_type::_azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
                     std::back_inserter(multi_rich_line_data_base_type::_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 9799b8b..e526d79 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -193,6 +193,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -204,6 +205,8 @@ namespace map_matching_2::geometry {
             rich_line_data_base_type::_azimuth = other.azimuth();
             rich_line_data_base_type::_directions = other.directions();
             rich_line_data_base_type::_absolute_directions = other.absolute_directions();
+            rich_line_data_base_type::_lengths.clear();
+            rich_line_data_base_type::_azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
                     std::back_inserter(rich_line_data_base_type::_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index e30ba5e..1cfc9c5 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -113,6 +113,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         constexpr lazy_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b67ef70..eb699bc 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -162,6 +162,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         constexpr lazy_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index ce56345..2104082 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -117,6 +117,8 @@ namespace map_matching_2::geometry {
             _azimuth = other.azimuth();
             _directions = other.directions();
             _absolute_directions = other.absolute_directions();
+            _lengths.clear();
+            _azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()), std::back_inserter(_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()), std::back_inserter(_azimuths));
             return *this;
-- 
2.43.0


From 262525ee7a1e0a6d8a258078443a96b1fd445b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 20/63] fix: merging into lazy and eager multi rich lines
 updates their derived data

The inherited merge only appended lines and kept length, azimuth and directions.
---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp  | 8 ++++++++
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 43913ff..14b3c4e 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -192,6 +192,14 @@ namespace map_matching_2::geometry {
             return multi_rich_line_data_base_type::absolute_directions();
         }
 
+        template<is_rich_line RichLineT>
+        eager_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            multi_rich_line_data_base_type::_compute(*this);
+            return *this;
+        }
+
     };
 
 }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index 1cfc9c5..0250fed 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -172,6 +172,13 @@ namespace map_matching_2::geometry {
             return multi_rich_line_data_base_type::absolute_directions();
         }
 
+        template<is_rich_line RichLineT>
+        lazy_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            return *this;
+        }
+
     };
 
 }
-- 
2.43.0


From 7961a43dd266a532f0b0cbfd3135377a5fd28d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 21/63] fix: coordinator no longer loses tasks queued right
 before stop()

Checking empty() and then closed() separately ends the loop when a task is queued and
the queue is closed in between; the tasks left in the queue were never executed.
---
 src/library/include/util/coordinator.hpp | 27 +++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/library/include/util/coordinator.hpp b/src/library/include/util/coordinator.hpp
index 9301250..129709b 100644
--- a/src/library/include/util/coordinator.hpp
+++ b/src/library/include/util/coordinator.hpp
@@ -76,21 +76,24 @@ namespace map_matching_2::util {
         virtual void execute(task_type &&task) = 0;
 
         void _start() {
-            while (not _queue.empty() or not _queue.closed()) {
+            while (true) {
                 task_type task;
                 auto queue_op = _queue.wait_pull_front(task);
-                if (queue_op == boost::queue_op_status::success) {
-                    _semaphore.acquire();
-                    boost::async(_thread_pool, [this, task = std::move(task)]() mutable {
-                        try {
-                            execute(std::move(task));
-                            _semaphore.release();
-                        } catch (...) {
-                            _semaphore.release();
-                            throw;
-                        }
-                    });
+                if (queue_op != boost::queue_op_status::success) {
+                    // closed and empty
+                    break;
                 }
+
+                _semaphore.acquire();
+                boost::async(_thread_pool, [this, task = std::move(task)]() mutable {
+                    try {
+                        execute(std::move(task));
+                        _semaphore.release();
+                    } catch (...) {
+                        _semaphore.release();
+                        throw;
+                    }
+                });
             }
 
             _thread_pool.close();
-- 
2.43.0


From eabf18a3d792a4d5f749f41757523e3c7844fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 22/63] fix: directions of routes with one-point lines do not
 throw

---
 src/library/include/geometry/network/route/route.hpp      | 6 +++---
 src/library/include/geometry/network/route/route_data.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 6688258..3174979 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -292,7 +292,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // has direction only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 return true;
@@ -332,7 +332,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
@@ -383,7 +383,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
diff --git a/src/library/include/geometry/network/route/route_data.hpp b/src/library/include/geometry/network/route/route_data.hpp
index 667cbff..93de2f4 100644
--- a/src/library/include/geometry/network/route/route_data.hpp
+++ b/src/library/include/geometry/network/route/route_data.hpp
@@ -241,7 +241,7 @@ namespace map_matching_2::geometry::network {
                             if (route_type::_attaches(curr_rich_line, next_rich_line)) {
                                 // add direction inbetween only when attached
                                 const auto _curr_size = route_type::_size(curr_rich_line);
-                                if (_curr_size >= 2 and
+                                if (_curr_size >= 2 and route_type::_size(next_rich_line) >= 2 and
                                     route_type::_has_azimuth(curr_rich_line, _curr_size - 2) and
                                     route_type::_has_azimuth(next_rich_line, 0)) {
                                     const auto direction = geometry::direction_deg(
-- 
2.43.0


From 1a197349a12594d197d89f0b458e83053a7ff00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 23/63] fix: sub_route copies own lines behind referenced ones

A referenced line exhausted the iterator over the own lines, so that later own lines
were only referenced by the sub route and dangled after the original route was gone.
---
 src/library/include/geometry/network/route/route.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 3174979..7ed5890 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -481,19 +481,19 @@ namespace map_matching_2::geometry::network {
                 auto copy_rich_line = [&](const rich_line_reference_variant_type &rich_line_ref,
                         auto &next_rich_it, const auto &end_rich_it) {
                     bool data_moved = false;
-                    while (next_rich_it != end_rich_it) {
-                        const rich_line_variant_type &next_rich_line = *next_rich_it;
+                    // references without local data must not advance the iterator over the local data
+                    for (auto search_it = next_rich_it; search_it != end_rich_it; ++search_it) {
+                        const rich_line_variant_type &next_rich_line = *search_it;
                         if (_equal_reference(next_rich_line, rich_line_ref)) {
-                            // reference has local data, move it
+                            // reference has local data, copy it
                             const auto &_own_rich_line = new_rich_lines.emplace_back(next_rich_line);
                             std::visit([&new_references](auto &&_rich_line) {
                                 new_references.emplace_back(std::cref(_rich_line));
                             }, _own_rich_line);
-                            ++next_rich_it;
+                            next_rich_it = std::next(search_it);
                             data_moved = true;
                             break;
                         }
-                        ++next_rich_it;
                     }
 
                     // only reference movement
-- 
2.43.0


From b53e521305134e08fce40355e98770fcb8c20b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 24/63] fix: sub_route within a single line

Both positions on the same line threw an out of range exception; and the text of that
exception was read from outside of the route when to was 0.
---
 src/library/include/geometry/network/route/route.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 7ed5890..510b54f 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -528,11 +528,15 @@ namespace map_matching_2::geometry::network {
                 routes.reserve(to - from + 2); // plus two for possible from_pos and to_pos sub_rich_lines
 
                 if (from_pos > 0) {
+                    const bool within_line = from + 1 == to;
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[from]).
-                            sub_rich_line(from_pos, _size(_rich_lines[from]))
+                            sub_rich_line(from_pos, within_line ? to_pos : _size(_rich_lines[from]))
                     });
                     from++;
+                    if (within_line) {
+                        return merge<_rich_line_type, _route_type>(std::move(routes));
+                    }
                 }
 
                 if (to > 0 and to_pos < _size(_rich_lines[to - 1])) {
@@ -554,7 +558,7 @@ namespace map_matching_2::geometry::network {
                     from < size() and not _empty(_rich_lines[from])
                     ? _size(_rich_lines[from])
                     : -1,
-                    to <= size() and not _empty(_rich_lines[to - 1])
+                    to > 0 and to <= size() and not _empty(_rich_lines[to - 1])
                     ? _size(_rich_lines[to - 1])
                     : -1));
         }
-- 
2.43.0


From d18c3f4f1a62b62c269112fff2810e8e27d34ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 25/63] fix: empty eager route is connected like the other
 routes

---
 .../include/geometry/network/route/eager_route.hpp        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 1cd7fc5..a5e5715 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -50,10 +50,14 @@ namespace map_matching_2::geometry::network {
         using route_data_base_type = route_data<length_type, angle_type>;
         using route_base_type = route<rich_line_variant_type>;
 
-        constexpr eager_route() = default;
+        constexpr eager_route() {
+            route_data_base_type::_compute(*this);
+        }
 
         constexpr explicit eager_route(bool is_invalid)
-            : route_data_base_type{}, route_base_type{is_invalid} {}
+            : route_data_base_type{}, route_base_type{is_invalid} {
+            route_data_base_type::_compute(*this);
+        }
 
         template<is_rich_line RichLine>
         explicit eager_route(RichLine rich_line) requires
-- 
2.43.0


From c539fc6e8c9b9a5e5fd2a186b1379d8be2fac296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 26/63] fix: joining routes with a gap inbetween leaves them as
 they are

Joining replaces the point where both routes meet; without such a point (for example when
the route inbetween was invalid) the end of the first route was moved across the gap.
---
 src/library/include/geometry/network/route/route.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 510b54f..fa55d3f 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -849,6 +849,11 @@ namespace map_matching_2::geometry::network {
                 return;
             }
 
+            if (not geometry::equals_points(_back(a_back_ref), _front(b_front_ref))) {
+                // cannot join routes with a gap inbetween
+                return;
+            }
+
             if (retain_reversal and _reverse_attaches(a_back_ref, b_front_ref)) {
                 // reversal detected, shall be retained, so stop join
                 return;
-- 
2.43.0


From 95d447b974184e638f2472e2cab3129bd73fba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 27/63] fix: joining lazy and eager routes updates their
 derived data

---
 .../include/geometry/network/route/eager_route.hpp       | 9 ++++++++-
 .../include/geometry/network/route/lazy_route.hpp        | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index a5e5715..f1333e3 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -165,7 +165,14 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = eager_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            if constexpr (std::is_same_v<RouteT, eager_route>) {
+                // both routes changed, so their derived data is outdated
+                a.route_data_base_type::_invalidate();
+                b.route_data_base_type::_invalidate();
+                a.route_data_base_type::_compute(a);
+                b.route_data_base_type::_compute(b);
+            }
         }
 
     };
diff --git a/src/library/include/geometry/network/route/lazy_route.hpp b/src/library/include/geometry/network/route/lazy_route.hpp
index ff585e4..0decf8b 100644
--- a/src/library/include/geometry/network/route/lazy_route.hpp
+++ b/src/library/include/geometry/network/route/lazy_route.hpp
@@ -163,7 +163,12 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = lazy_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            if constexpr (std::is_same_v<RouteT, lazy_route>) {
+                // both routes changed, so their derived data is outdated
+                a.route_data_base_type::_invalidate();
+                b.route_data_base_type::_invalidate();
+            }
         }
 
     };
-- 
2.43.0


From 4693cdc4e8f4546c163ac0a90a56b9b159e4a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 28/63] fix: points without a defect keep the verdict none

---
 src/library/include/matching/algorithm/detect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/detect.hpp b/src/library/include/matching/algorithm/detect.hpp
index 163a0c9..c81b10c 100644
--- a/src/library/include/matching/algorithm/detect.hpp
+++ b/src/library/include/matching/algorithm/detect.hpp
@@ -67,7 +67,7 @@ namespace map_matching_2::matching {
             }
 
             for (auto &defect_set : defects) {
-                if (not defect_set.empty()) {
+                if (defect_set.size() > 1) {
                     defect_set.erase(defect::none);
                 }
             }
-- 
2.43.0


From 4d022ceae0e1e59bb625562793f1f08e5ae07f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 29/63] fix: single environment filters duplicates of its track

---
 src/library/include/environment/environments/single.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 270eaaa..748aaaa 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -98,8 +98,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
-- 
2.43.0


From 1aa2089f172875547bf96d8d13a3ae3957ef9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 30/63] fix: hmm environment filters duplicates of its track

---
 src/library/include/environment/environments/hmm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/environment/environments/hmm.hpp b/src/library/include/environment/environments/hmm.hpp
index 0091824..ff3c782 100644
--- a/src/library/include/environment/environments/hmm.hpp
+++ b/src/library/include/environment/environments/hmm.hpp
@@ -78,8 +78,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
@@ -114,7 +114,7 @@ namespace map_matching_2::environment {
             _transitions.clear();
 
             // observations
-            _observations.reserve(track.rich_line.size());
+            _observations.reserve(_candidates.size());
             for (const auto &candidate : _candidates) {
                 double max_distance = 0.0;
                 for (const auto &candidate_edge : candidate.edges) {
-- 
2.43.0


From e73ab96a015773c08e9ef5cb9698e3f2cdf76fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 31/63] fix: length of spherical lines is in meters like their
 distance

---
 src/library/include/geometry/algorithm/length.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/length.hpp b/src/library/include/geometry/algorithm/length.hpp
index 28c6b56..fb7fb57 100644
--- a/src/library/include/geometry/algorithm/length.hpp
+++ b/src/library/include/geometry/algorithm/length.hpp
@@ -28,7 +28,7 @@ namespace map_matching_2::geometry {
     length(const Geometry &geometry) {
         using coordinate_system_type = typename boost::geometry::coordinate_system<Geometry>::type;
         if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
-            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371));
+            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371.0 * 1000));
         } else {
             return boost::geometry::length(geometry);
         }
-- 
2.43.0


From cd284579e98c91fe4f7d8b4bc271011b1cdb3071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 32/63] fix: combined candidate search finds candidates after
 doubling the radius

---
 src/library/include/matching/algorithm/candidate_search.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index d708a62..15cfbf6 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -97,6 +97,7 @@ namespace map_matching_2::matching {
 
             if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED or
                 match_settings.candidate_search == settings::CANDIDATE_SEARCH::CIRCLE) {
+                const auto nearest_result = edge_result;
                 bool found = false;
                 bool adaptive_radius = match_settings.adaptive_radius;
                 double current_radius = match_settings.radius;
@@ -123,6 +124,9 @@ namespace map_matching_2::matching {
                         // create bounding box with at least buffer_distance
                         const auto buffer = geometry::buffer_box(point, current_radius);
                         edge_result = _network.query_segments_unique(boost::geometry::index::intersects(buffer));
+                    } else {
+                        // start again with the nearest edges, smaller radius removed them
+                        edge_result = nearest_result;
                     }
 
                     for (auto edge_it = edge_result.begin(); edge_it != edge_result.end();) {
-- 
2.43.0


From c1846ef3ff662c6988e5cdd133bfbc0e586bc4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 33/63] fix: next candidate search compares with the distance
 of the adjacent edge

---
 src/library/include/matching/algorithm/candidate_search.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index 15cfbf6..56809f7 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -171,8 +171,8 @@ namespace map_matching_2::matching {
                 for (const auto vertex : std::array{source, target}) {
                     const auto out_edges_v = _network.graph().out_edges_view(vertex);
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
-                        const auto &adj_edge = out_edges_v[it];
-                        const auto &adj_edge_line = edge.rich_line.line();
+                        const auto &adj_edge = _network.edge(it);
+                        const auto &adj_edge_line = adj_edge.rich_line.line();
                         const auto adj_distance = geometry::distance(point, adj_edge_line);
                         if (adj_distance <= edge_distance) {
                             additions.emplace_back(it);
-- 
2.43.0


From 863fac8acb8153542faa59179cb8eb9aff2c70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 34/63] fix: route from the start of an edge to a candidate on
 the same edge follows the edge

---
 src/library/include/matching/algorithm/route.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 82ef79c..99b9491 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -186,6 +186,10 @@ namespace map_matching_2::matching {
                     const auto &edge = _network.edge(candidate_from.edge_desc);
                     if (edge.rich_line.has_length() and start->length() + end->length() >= edge.rich_line.length()) {
                         // if both lines overlap (which is only possible when sum of lengths is larger or equal than edge length)
+                        if (not candidate_from.from->has_length()) {
+                            // we are at the start of the edge, the way to the other candidate is the route
+                            return route_type{std::cref(*end)};
+                        }
                         if (candidate_from.from->has_length() and candidate_to.from->has_length() and
                             candidate_from.from->length() <= candidate_to.from->length()) {
                             // only continue if substring is possible, else routing is needed
-- 
2.43.0


From feaecc23f1a012bec5f7bbe76cd05977ba247699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 35/63] fix: within edge turns are also possible when both
 edges attach directly

---
 src/library/include/matching/algorithm/route.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 99b9491..c569550 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -213,6 +213,13 @@ namespace map_matching_2::matching {
                 try {
                     if (within_edge_turns) {
                         // trim route to allow turns within the edge
+                        if (not route.has_length()) {
+                            // both edges attach directly, so the turn is between them
+                            route_type direct_return = start_route.template trim_merge<lazy_rich_line_type>(end_route);
+                            if (not direct_return.is_invalid()) {
+                                return direct_return;
+                            }
+                        }
                         route_type start_return = start_route.template trim_merge<lazy_rich_line_type>(route);
                         if (not start_return.is_invalid()) {
                             // start trim worked
-- 
2.43.0


From 8fd2dc2cca1ed796bfd00d202bcc2960262a4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 36/63] fix: candidates route leaves a gap regardless of how
 often a policy entry is repeated

---
 src/library/include/matching/algorithm/route.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index c569550..a9b38b3 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -278,9 +278,11 @@ namespace map_matching_2::matching {
                 const auto to = to_policy_pair.first;
 
                 if (from == to) {
-                    // skip detected
-                    ++i;
-                    ++j;
+                    // skip detected, also when repeated
+                    do {
+                        ++i;
+                        ++j;
+                    } while (j < policy.size() and policy[j].first == from);
                     skipped = true;
                     continue;
                 }
-- 
2.43.0


From 959050534837095c14e9ff767c63f9ac2d523979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 37/63] fix: fitting edge prefers the edge a segment lies on to
 edges that continue it

---
 src/library/include/geometry/network/network.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index f79513d..211ceea 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -190,16 +190,23 @@ namespace map_matching_2::geometry::network {
             const auto azimuth = geometry::azimuth_segment_deg(segment);
             const edge_descriptor *edge = nullptr;
             const segment_type *best_segment = nullptr;
+            distance_type best_deviation = geometry::default_float_type<distance_type>::v0;
 
             const auto segments = query_segments(boost::geometry::index::intersects(segment));
             for (const auto &segment_pair : segments) {
                 const segment_type &near_segment = segment_pair.first;
                 const auto near_azimuth = geometry::azimuth_segment_deg(near_segment);
                 const auto angle_diff = std::fabs(geometry::angle_diff(azimuth, near_azimuth));
+                // segments that only touch the given segment might fit its angle as well, but it does not lie on them
+                const distance_type deviation = geometry::distance(segment.first, near_segment) +
+                        geometry::distance(segment.second, near_segment);
                 if (best_segment == nullptr or
                     (geometry::equals_points(segment.first, near_segment.first) and
-                        geometry::equals_points(segment.second, near_segment.second)) or angle_diff < best_angle) {
+                        geometry::equals_points(segment.second, near_segment.second)) or
+                    angle_diff < best_angle - 1e-3 or
+                    (angle_diff < best_angle + 1e-3 and deviation < best_deviation)) {
                     best_angle = angle_diff;
+                    best_deviation = deviation;
                     best_segment = &near_segment;
                     edge = &segment_pair.second.first;
                 }
-- 
2.43.0


From 7a74c090ff1ad42145edbee561a07220f111b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 38/63] fix: fitting edge finds the edge of a segment within
 one of its segments

---
 .../include/geometry/network/network.hpp      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 211ceea..1b558da 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -18,6 +18,8 @@
 
 #include "network_base.hpp"
 
+#include <algorithm>
+
 #include <boost/container/set.hpp>
 #include <boost/unordered/unordered_flat_set.hpp>
 
@@ -192,7 +194,22 @@ namespace map_matching_2::geometry::network {
             const segment_type *best_segment = nullptr;
             distance_type best_deviation = geometry::default_float_type<distance_type>::v0;
 
-            const auto segments = query_segments(boost::geometry::index::intersects(segment));
+            auto segments = query_segments(boost::geometry::index::intersects(segment));
+
+            const auto lies_on = [&segment](const auto &segment_pair) {
+                return geometry::distance(segment.first, segment_pair.first) +
+                        geometry::distance(segment.second, segment_pair.first) < 1e-3;
+            };
+
+            if (std::none_of(segments.cbegin(), segments.cend(), lies_on)) {
+                // parts of a segment might not intersect it due to rounding
+                for (auto &segment_pair : query_segments(boost::geometry::index::nearest(segment.first, 16))) {
+                    if (lies_on(segment_pair)) {
+                        segments.emplace_back(segment_pair);
+                    }
+                }
+            }
+
             for (const auto &segment_pair : segments) {
                 const segment_type &near_segment = segment_pair.first;
                 const auto near_azimuth = geometry::azimuth_segment_deg(near_segment);
-- 
2.43.0


From 0c2c87f634908786f84895d3d3c4c66eed6b2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 39/63] fix: missing routes are searched again when the search
 distance is larger than before

---
 .../include/matching/algorithm/route.hpp      | 47 +++++++++++++++----
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index a9b38b3..b1d6efb 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -58,21 +58,14 @@ namespace map_matching_2::matching {
                 std::size_t from, std::size_t source, std::size_t to, double max_distance_factor = 10.0) const {
             const auto &candidate_edge_start = candidates[from].edges[source];
             const auto &vertex_start = _network.graph().target(candidate_edge_start.edge_desc);
-            const auto &node_start = _network.vertex(vertex_start);
 
-            distance_type max_distance = geometry::default_float_type<distance_type>::v0;
             boost::unordered::unordered_flat_set<vertex_descriptor> goals;
             for (const auto &candidate_node : candidates[to].nodes) {
-                const auto &vertex_goal = candidate_node.vertex_desc;
-                goals.emplace(vertex_goal);
-
-                const auto &node_goal = _network.vertex(vertex_goal);
-                const auto distance = geometry::point_distance(node_start.point, node_goal.point);
-                if (distance > max_distance) {
-                    max_distance = distance;
-                }
+                goals.emplace(candidate_node.vertex_desc);
             }
 
+            const auto max_distance = _max_nodes_distance(candidates, vertex_start, to);
+
             return _network.dijkstra_shortest_paths(
                     vertex_start, goals, max_distance, max_distance_factor,
                     _predecessors, _distances, _colors, _queue);
@@ -110,6 +103,20 @@ namespace map_matching_2::matching {
             bool exists = search != _route_cache.end();
             const route_type *return_route;
 
+            const auto search_distance = [&]() -> distance_type {
+                // with negative factor there is no limit, and A* is always limited by the same distance
+                if (a_star or max_distance_factor < 0.0) {
+                    return geometry::default_float_type<distance_type>::v0;
+                }
+                return _max_nodes_distance(candidates, from_target, to) * max_distance_factor;
+            };
+
+            if (exists and search->second->is_invalid() and search_distance() > _no_route_distances[key]) {
+                // no route was found within a smaller distance, so search again
+                _route_cache.erase(search);
+                exists = false;
+            }
+
             if (exists) {
                 return_route = &(*(search->second));
             } else {
@@ -153,6 +160,7 @@ namespace map_matching_2::matching {
                 }
 
                 if (not found) {
+                    _no_route_distances[key] = search_distance();
                     route_type no_route{true};
                     auto inserted = _route_cache.emplace(
                             key, std::make_unique<const route_type>(std::move(no_route)));
@@ -406,6 +414,24 @@ namespace map_matching_2::matching {
         using priority_type = graph::priority_type<length_type, vertex_descriptor>;
         using route_cache_type = boost::unordered::unordered_flat_map<
             route_cache_key_type, std::unique_ptr<const route_type>>;
+        using no_route_distances_type = boost::unordered::unordered_flat_map<route_cache_key_type, distance_type>;
+
+        [[nodiscard]] distance_type _max_nodes_distance(
+                const std::vector<candidate_type> &candidates,
+                const vertex_descriptor &vertex_start, const std::size_t to) const {
+            const auto &node_start = _network.vertex(vertex_start);
+
+            distance_type max_distance = geometry::default_float_type<distance_type>::v0;
+            for (const auto &candidate_node : candidates[to].nodes) {
+                const auto &node_goal = _network.vertex(candidate_node.vertex_desc);
+                const auto distance = geometry::point_distance(node_start.point, node_goal.point);
+                if (distance > max_distance) {
+                    max_distance = distance;
+                }
+            }
+
+            return max_distance;
+        }
 
         util::time_helper &_time_helper;
         const network_type &_network;
@@ -416,6 +442,7 @@ namespace map_matching_2::matching {
         mutable graph::priority_queue_type<priority_type> _queue{};
 
         mutable route_cache_type _route_cache{};
+        mutable no_route_distances_type _no_route_distances{};
 
     };
 
-- 
2.43.0


From acce728dc38ddb41a1633d457e49e0da75efe304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 40/63] fix: single environment does not access the edges of
 the wrong candidate

---
 src/library/include/environment/environments/single.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 748aaaa..4ea0767 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -418,7 +418,6 @@ namespace map_matching_2::environment {
 
                                 if (prev_action >= 0) {
                                     const auto &prev_candidate = _candidates[prev_position];
-                                    const auto &prev_edge = current_candidate.edges[prev_action];
 
                                     const auto prev_route = _algorithms.router.candidate_route(
                                             _candidates, prev_position, prev_action, current_position, current_action,
-- 
2.43.0


From 2b6dfe999d770b18d2f3ad1381fa4fdecd8a66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 41/63] fix: repeated movements are all counted as missed or
 added when comparing

---
 src/library/include/geometry/algorithm/compare.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index 3f806ac..fbc1132 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -435,23 +435,13 @@ namespace map_matching_2::geometry {
             // remaining duplicate lines are missed lines because already matched duplicate lines were removed above
             for (auto reverse_a_it = reverse_a_segments.begin();
                  reverse_a_it != reverse_a_segments.end(); ++reverse_a_it) {
-                if (std::find_if(error_misses.begin(), error_misses.end(), [&](const auto &error_miss) {
-                    return geometry::equals_points((*reverse_a_it).segment().first, error_miss.segment().first) and
-                            geometry::equals_points((*reverse_a_it).segment().second, error_miss.segment().second);
-                }) == error_misses.end()) {
-                    error_misses.emplace_back(*reverse_a_it);
-                }
+                error_misses.emplace_back(*reverse_a_it);
             }
 
             // remaining reverse lines were added erroneously
             for (reverse_b_it = reverse_b_segments.begin();
                  reverse_b_it != reverse_b_segments.end(); ++reverse_b_it) {
-                if (std::find_if(error_adds.begin(), error_adds.end(), [&](const auto &error_add) {
-                    return geometry::equals_points((*reverse_b_it).segment().first, error_add.segment().first) and
-                            geometry::equals_points((*reverse_b_it).segment().second, error_add.segment().second);
-                }) == error_adds.end()) {
-                    error_adds.emplace_back(*reverse_b_it);
-                }
+                error_adds.emplace_back(*reverse_b_it);
             }
 
             // missed lines that we added were correctly found, can happen due to early merging within loops
-- 
2.43.0


From f22cf04bf646b320d4bff1e50bc8fa1d3c2a7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 42/63] fix: comparing does not fill the gaps between the lines
 of a multi line

---
 .../include/geometry/algorithm/compare.hpp    | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index fbc1132..cafcd2a 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -186,8 +186,8 @@ namespace map_matching_2::geometry {
             }
 
             // simplify with Douglas-Peucker algorithm
-            simplify_rich_segments(a_segments_list, true, simplifying_tolerance, simplifying_reverse_tolerance);
-            simplify_rich_segments(b_segments_list, true, simplifying_tolerance, simplifying_reverse_tolerance);
+            _simplify_segments(a_segments_list);
+            _simplify_segments(b_segments_list);
 
             if (debug) {
                 std::cout << "Ground Truth Segments Simplified:\n";
@@ -592,6 +592,23 @@ namespace map_matching_2::geometry {
             return segments_index;
         }
 
+        void _simplify_segments(std::pmr::list<rich_segment_type> &segments) const {
+            // each connected part on its own, so that gaps between lines are not filled
+            std::pmr::list<rich_segment_type> simplified{&_buffer};
+            while (not segments.empty()) {
+                auto end_it = std::next(segments.begin());
+                while (end_it != segments.end() and
+                    geometry::equals_points(std::prev(end_it)->segment().second, end_it->segment().first)) {
+                    ++end_it;
+                }
+                std::pmr::list<rich_segment_type> part{&_buffer};
+                part.splice(part.end(), segments, segments.begin(), end_it);
+                simplify_rich_segments(part, true, simplifying_tolerance, simplifying_reverse_tolerance);
+                simplified.splice(simplified.end(), part);
+            }
+            segments.splice(segments.end(), simplified);
+        }
+
         void _adapt_points(std::pmr::list<rich_segment_type> &segments,
                 const std::pmr::list<rich_segment_type> &adopt_segments,
                 double distance_tolerance) const {
-- 
2.43.0


From ca0fff329b0e8213123d772d847ad05779646276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 43/63] fix: adapting points when comparing does not connect
 separate lines

---
 .../include/geometry/algorithm/compare.hpp       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index cafcd2a..0e9096f 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -617,8 +617,8 @@ namespace map_matching_2::geometry {
             const auto buffer_radius = std::max(1e-3, 2 * distance_tolerance);
 
             auto adapt_point = [&](auto &segment_it, const bool first) {
-                const segment_type &segment = segment_it->segment();
-                const point_type &point = first ? segment.first : segment.second;
+                const segment_type segment = segment_it->segment();
+                const point_type point = first ? segment.first : segment.second;
 
                 const auto buffer = geometry::buffer_box(point, buffer_radius);
                 std::pmr::list<point_type> result_points{&_buffer};
@@ -641,19 +641,19 @@ namespace map_matching_2::geometry {
                     *segment_it = first
                                   ? rich_segment_type{segment_type{*nearest_point, segment.second}}
                                   : rich_segment_type{segment_type{segment.first, *nearest_point}};
-                    if (not(segment_it == segments.begin() and
-                            geometry::equals_points(point, segment_it->segment().first)) and
-                        std::next(segment_it) != segments.end()) {
+                    if (not first and std::next(segment_it) != segments.end()) {
+                        // only a connected next segment is adapted, there may be a gap to the next line
                         auto &next_segment = *std::next(segment_it);
-                        if (not geometry::equals_points(next_segment.segment().first, point)) {
-                            next_segment = rich_segment_type{segment_type{point, next_segment.segment().second}};
+                        if (geometry::equals_points(next_segment.segment().first, point)) {
+                            next_segment = rich_segment_type{segment_type{*nearest_point, next_segment.segment().second}};
                         }
                     }
                 }
             };
 
             for (auto segment_it = segments.begin(); segment_it != segments.end(); ++segment_it) {
-                if (segment_it == segments.begin()) {
+                if (segment_it == segments.begin() or not geometry::equals_points(
+                        std::prev(segment_it)->segment().second, segment_it->segment().first)) {
                     adapt_point(segment_it, true);
                 }
                 adapt_point(segment_it, false);
-- 
2.43.0


From a1d0ea103f666d12568de808f4eee6c5b31ee8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 44/63] fix: points near each other become the same point when
 comparing

---
 .../include/geometry/algorithm/compare.hpp    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index 0e9096f..415fc17 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -615,6 +615,7 @@ namespace map_matching_2::geometry {
             rtree_points_type points_index = _create_points_rtree(adopt_segments);
 
             const auto buffer_radius = std::max(1e-3, 2 * distance_tolerance);
+            const bool adopt_self = &segments == &adopt_segments;
 
             auto adapt_point = [&](auto &segment_it, const bool first) {
                 const segment_type segment = segment_it->segment();
@@ -628,11 +629,23 @@ namespace map_matching_2::geometry {
                 const point_type *nearest_point = nullptr;
 
                 for (const auto &result_point : result_points) {
-                    if (not geometry::equals_points(point, result_point)) {
+                    if (geometry::equals_points(point, result_point)) {
+                        if (not adopt_self) {
+                            // already adopted
+                            return;
+                        }
+                    } else {
                         const auto distance = geometry::distance(point, result_point);
-                        if (distance < distance_tolerance and distance < nearest_distance) {
-                            nearest_distance = distance;
-                            nearest_point = &result_point;
+                        if (distance < distance_tolerance) {
+                            if (adopt_self) {
+                                // points near each other need to become the same point instead of being swapped
+                                if (result_point < (nearest_point != nullptr ? *nearest_point : point)) {
+                                    nearest_point = &result_point;
+                                }
+                            } else if (distance < nearest_distance) {
+                                nearest_distance = distance;
+                                nearest_point = &result_point;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 50d37cf9d058ac0316f2096d231756d4f121b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 45/63] fix: tags stay valid when the file of the tags grows
 while they are stored

---
 src/library/include/io/helper/tag_helper.hpp | 140 ++++++-------------
 1 file changed, 41 insertions(+), 99 deletions(-)

diff --git a/src/library/include/io/helper/tag_helper.hpp b/src/library/include/io/helper/tag_helper.hpp
index 41a719a..4805982 100644
--- a/src/library/include/io/helper/tag_helper.hpp
+++ b/src/library/include/io/helper/tag_helper.hpp
@@ -157,7 +157,12 @@ namespace map_matching_2::io::helper {
         }
 
         void set_node_tags(const std::uint64_t id, tag_vector_type &&tags) {
-            set_map_tags(id, std::move(tags), MAP_TAGS::NODES_MAP);
+            tag_ids_type tag_ids(std::cbegin(tags), std::cend(tags));
+            {
+                // releases the memory before the storage grows
+                [[maybe_unused]] const tag_vector_type released{std::move(tags)};
+            }
+            set_map_tags(id, tag_ids, MAP_TAGS::NODES_MAP);
         }
 
         void set_node_tags(const std::uint64_t id, const osmium::TagList &tag_list) {
@@ -175,7 +180,12 @@ namespace map_matching_2::io::helper {
         }
 
         void set_edge_tags(const std::uint64_t id, tag_vector_type &&tags) {
-            set_map_tags(id, std::move(tags), MAP_TAGS::EDGES_MAP);
+            tag_ids_type tag_ids(std::cbegin(tags), std::cend(tags));
+            {
+                // releases the memory before the storage grows
+                [[maybe_unused]] const tag_vector_type released{std::move(tags)};
+            }
+            set_map_tags(id, tag_ids, MAP_TAGS::EDGES_MAP);
         }
 
         void set_edge_tags(const std::uint64_t id, const osmium::TagList &tag_list) {
@@ -263,86 +273,46 @@ namespace map_matching_2::io::helper {
             }
         }
 
-        [[nodiscard]] tag_vector_type tags(const osmium::TagList &tag_list) {
-            const auto &_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tag_list.size());
-                for (const auto &tag : tag_list) {
-                    tags_container.emplace_back(id(tag.key(), tag.value(), false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _tags();
-            }
-        }
-
-        template<typename TagsT>
-        [[nodiscard]] tag_vector_type copy_tags(const TagsT &tags) {
-            const auto &_copy_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
-                return tags_container;
-            };
+        // tags are collected outside the storage, so that they stay valid when the storage grows
+        using tag_ids_type = std::vector<std::uint64_t>;
 
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _copy_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _copy_tags();
+        [[nodiscard]] tag_ids_type tags(const osmium::TagList &tag_list) {
+            tag_ids_type tag_ids;
+            tag_ids.reserve(tag_list.size());
+            for (const auto &tag : tag_list) {
+                tag_ids.emplace_back(id(tag.key(), tag.value()));
             }
+            return tag_ids;
         }
 
         template<typename TagsT, typename TagHelperT>
-        [[nodiscard]] tag_vector_type clone_tags(const TagsT &tags, const TagHelperT &other) {
-            const auto &_clone_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                for (const auto &tag_id : tags) {
-                    // clones tag data from other tag_storage to this tag_storage
-                    auto tag = other.tag(tag_id);
-                    tags_container.emplace_back(id(tag.first, tag.second, false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _clone_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _clone_tags();
+        [[nodiscard]] tag_ids_type clone_tags(const TagsT &tags, const TagHelperT &other) {
+            tag_ids_type tag_ids;
+            tag_ids.reserve(tags.size());
+            for (const auto &tag_id : tags) {
+                // clones tag data from other tag_storage to this tag_storage
+                auto tag = other.tag(tag_id);
+                tag_ids.emplace_back(id(tag.first, tag.second));
             }
+            return tag_ids;
         }
 
-        void set_map_tags(const std::uint64_t id, tag_vector_type &&tags, MAP_TAGS map_tag) {
-            const auto &_set_map_tags = [&]() {
-                auto &map = get_map(map_tag);
-                map.emplace(id, std::move(tags));
-            };
+        void emplace_map_tags(const std::uint64_t id, const tag_ids_type &tag_ids, MAP_TAGS map_tag) {
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.assign(std::cbegin(tag_ids), std::cend(tag_ids));
+            get_map(map_tag).emplace(id, std::move(tags_container));
+        }
 
-            if (not tags.empty()) {
+        void set_map_tags(const std::uint64_t id, const tag_ids_type &tag_ids, MAP_TAGS map_tag) {
+            if (not tag_ids.empty()) {
                 if constexpr (is_mmap_tag_helper<tag_helper>) {
                     memory_mapped::retry_alloc([&]() {
-                                _set_map_tags();
+                                emplace_map_tags(id, tag_ids, map_tag);
                             }, [&](auto &ex) {
                                 handle_bad_alloc(ex);
                             });
                 } else {
-                    _set_map_tags();
+                    emplace_map_tags(id, tag_ids, map_tag);
                 }
             }
         }
@@ -355,41 +325,13 @@ namespace map_matching_2::io::helper {
 
         template<typename TagsT>
         void copy_map_tags(const std::uint64_t id, const TagsT &tags, MAP_TAGS map_tag) {
-            const auto &_copy_map_tags = [&]() {
-                if (not tags.empty()) {
-                    auto &map = get_map(map_tag);
-                    map.emplace(id, copy_tags(tags));
-                }
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                memory_mapped::retry_alloc([&]() {
-                            _copy_map_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                _copy_map_tags();
-            }
+            set_map_tags(id, tag_ids_type(std::cbegin(tags), std::cend(tags)), map_tag);
         }
 
         template<typename TagT, typename TagHelperT>
         void clone_map_tags(const std::uint64_t id, const TagT &tags, const TagHelperT &other, MAP_TAGS map_tag) {
-            const auto &_clone_map_tags = [&]() {
-                if (not tags.empty()) {
-                    auto &map = get_map(map_tag);
-                    map.emplace(id, clone_tags(tags, other));
-                }
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                memory_mapped::retry_alloc([&]() {
-                            _clone_map_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                _clone_map_tags();
+            if (not tags.empty()) {
+                set_map_tags(id, clone_tags(tags, other), map_tag);
             }
         }
 
@@ -420,7 +362,7 @@ namespace map_matching_2::io::helper {
                             std::move(std::begin(_missing_tags), std::end(_missing_tags), std::back_inserter(tags));
                         } else {
                             const auto &other_tags = other_tags_search->second;
-                            map.emplace(id, copy_tags(other_tags));
+                            emplace_map_tags(id, tag_ids_type(std::cbegin(other_tags), std::cend(other_tags)), map_tag);
                         }
                     }
                 };
-- 
2.43.0


From 216c45acf5977246727cffdb10dc34874f66b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 46/63] fix: an osm way without nodes has no edges

---
 src/library/include/io/network/osm_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index a351c97..c9dd42a 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -66,7 +66,7 @@ namespace map_matching_2::io::network {
                     }
                 }
 
-                for (std::size_t i = 0; i < osm_nodes.size() - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < osm_nodes.size(); ++i) {
                     try {
                         const auto index_from = static_cast<std::uint64_t>(osm_nodes[i].ref());
                         const auto index_to = static_cast<std::uint64_t>(osm_nodes[i + 1].ref());
-- 
2.43.0


From 198c85a7ba1d5b4a60e5d6adf746eaaa810df4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 47/63] fix: a reversed osm oneway keeps only the opposing edge

---
 src/library/include/io/network/osm_handler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index c9dd42a..846eedd 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -120,6 +120,8 @@ namespace map_matching_2::io::network {
                     oneway = true;
                 }
                 if (_oneway_reverse(tag)) {
+                    // a reversed oneway is also a oneway, only its opposing edge is kept
+                    oneway = true;
                     reverse = true;
                 }
             }
-- 
2.43.0


From 6463d6f1c81b5cbdd3d2064b310e6c80f32ea068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 48/63] fix: an osm tag specification without its default is
 not a rule

---
 src/library/include/io/network/osm_pattern.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/network/osm_pattern.hpp b/src/library/include/io/network/osm_pattern.hpp
index 0288b9e..1195c0a 100644
--- a/src/library/include/io/network/osm_pattern.hpp
+++ b/src/library/include/io/network/osm_pattern.hpp
@@ -20,7 +20,7 @@
 
 namespace map_matching_2::io::network {
 
-    const std::regex OSM_TAGS_FILTER_PATTERN{"^(true|false)(\\|(true|false),[^,=]+(=[^,|]+)?)*$"};
+    const std::regex OSM_TAGS_FILTER_PATTERN{"^(true|false)(\\|(true|false),[^,=|]+(=[^,|]+)?)*$"};
 
 }
 
-- 
2.43.0


From 1d3ae228db6f48a33c00b4f4e181ea52019839f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 49/63] fix: the next transformation starts from the srs the
 data was transformed to

---
 src/library/src/geometry/srs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index 8a29082..a4d9869 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -130,10 +130,10 @@ namespace map_matching_2::geometry {
     srs_transform compute_next_srs_transform(const srs_transform &_srs_transform, const std::int32_t transform_srs_code,
             const SRS transform_srs_type) {
 
-        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and _srs_transform.srs_code != transform_srs_code and
-            _srs_transform.transform_srs_type != transform_srs_type) {
+        if (_srs_transform.transform_srs_type != SRS::CS_INVALID) {
+            // the data now is in the srs it was transformed to
             return srs_transform{
-                    srs{_srs_transform.srs_code, _srs_transform.transform_srs_type},
+                    srs{_srs_transform.transform_srs_code, _srs_transform.transform_srs_type},
                     transform_srs_code, transform_srs_type
             };
         }
-- 
2.43.0


From 68a3d3d6c9ef577b04463db425bfc7266c12da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 50/63] fix: exported vertices without edges have their own osm
 node id

---
 .../include/io/network/osm_exporter.hpp       | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index e301e60..3d811dc 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -52,24 +52,31 @@ namespace map_matching_2::io::network {
 
             // index all points
             std::uint64_t index = 0;
+            const auto index_point = [&](const auto &point) {
+                point_type _point;
+                geometry::reproject_point(point, _point, _reprojector_variant);
+                const auto x = boost::geometry::get<0>(_point);
+                const auto y = boost::geometry::get<1>(_point);
+                point_map_key_type point_map_key{x, y};
+                if (not _point_map.contains(point_map_key)) {
+                    _point_map.emplace(point_map_key, index++);
+                }
+            };
             const auto edges_v = _graph.edges_view();
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
                 for (const auto &point : edge.rich_line.line()) {
-                    point_type _point;
-                    geometry::reproject_point(point, _point, _reprojector_variant);
-                    const auto x = boost::geometry::get<0>(_point);
-                    const auto y = boost::geometry::get<1>(_point);
-                    point_map_key_type point_map_key{x, y};
-                    if (not _point_map.contains(point_map_key)) {
-                        _point_map.emplace(point_map_key, index++);
-                    }
+                    index_point(point);
                 }
             }
+            // vertices without edges need an own index, too
+            const auto vertices_v = _graph.vertices_view();
+            for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
+                index_point(vertices_v[it].get().point);
+            }
 
             // add nodes
             point_set_type points_added;
-            const auto vertices_v = _graph.vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
                 const vertex_data_type &vertex = vertices_v[it].get();
                 add_node(buffer, vertex, points_added);
-- 
2.43.0


From ec87a676c1f6c1f6a9508b511052ec2c3840f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 51/63] fix: opposing edges are exported as one osm way only
 when it represents both

---
 .../include/io/network/osm_exporter.hpp       | 50 +++++++++++++++----
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index 3d811dc..da97f26 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -96,15 +96,23 @@ namespace map_matching_2::io::network {
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
                 bool is_oneway = true;
-                if (not edges_reversed.contains(_graph.edge_index(it))) {
-                    const auto target = _graph.target(it);
-                    const auto out_edges_v = _graph.out_edges_view(target);
-                    for (auto out_it = out_edges_v.begin();
-                         out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
-                        const edge_data_type &out_edge = out_edges_v[out_it].get();
-                        if (geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
-                            edges_reversed.emplace(_graph.edge_index(out_it));
-                            is_oneway = false;
+                const auto edge_index = _graph.edge_index(it);
+                if (not edges_reversed.contains(edge_index)) {
+                    // only a way that is not a oneway by its tags can represent both directions
+                    if (not has_oneway_tags(edge)) {
+                        const auto target = _graph.target(it);
+                        const auto out_edges_v = _graph.out_edges_view(target);
+                        for (auto out_it = out_edges_v.begin();
+                             is_oneway and out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
+                            const edge_data_type &out_edge = out_edges_v[out_it].get();
+                            const auto out_edge_index = _graph.edge_index(out_it);
+                            // edges before this one already have their own way
+                            if (out_edge_index > edge_index and not edges_reversed.contains(out_edge_index) and
+                                has_same_tags(edge, out_edge) and
+                                geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
+                                edges_reversed.emplace(out_edge_index);
+                                is_oneway = false;
+                            }
                         }
                     }
                     add_way(buffer, edge, is_oneway, index++);
@@ -134,6 +142,30 @@ namespace map_matching_2::io::network {
         point_map_type _point_map{};
         geometry::point_reprojector_variant _reprojector_variant;
 
+        [[nodiscard]] bool has_oneway_tags(const edge_data_type &edge) const {
+            const auto &tags = _tag_helper.edge_tags(edge.id);
+            for (const auto &tag : tags) {
+                const auto pair = _tag_helper.tag(tag);
+                if ((pair.first == "oneway" and (pair.second == "yes" or pair.second == "true" or pair.second == "1" or
+                            pair.second == "-1" or pair.second == "reverse")) or
+                    (pair.first == "junction" and pair.second == "roundabout") or
+                    (pair.first == "highway" and pair.second == "motorway")) {
+                    return true;
+                }
+            }
+            return false;
+        }
+
+        [[nodiscard]] bool has_same_tags(const edge_data_type &a, const edge_data_type &b) const {
+            if (a.id == b.id) {
+                return true;
+            }
+            const auto &a_tags = _tag_helper.edge_tags(a.id);
+            const auto &b_tags = _tag_helper.edge_tags(b.id);
+            return a_tags.size() == b_tags.size() and
+                    std::is_permutation(std::cbegin(a_tags), std::cend(a_tags), std::cbegin(b_tags));
+        }
+
         void add_node(osmium::memory::Buffer &buffer, const vertex_data_type &node, point_set_type &points_added) {
             osmium::builder::NodeBuilder node_builder{buffer};
 
-- 
2.43.0


From 492ab78f775ec603491d382a89bd78a039feb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 52/63] fix: an exported oneway has one oneway tag

---
 src/library/include/io/network/osm_exporter.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index da97f26..5947a51 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -16,6 +16,8 @@
 #ifndef MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 #define MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 
+#include <algorithm>
+#include <iterator>
 #include <utility>
 
 #include <boost/unordered/unordered_flat_set.hpp>
@@ -228,22 +230,16 @@ namespace map_matching_2::io::network {
 
             {
                 osmium::builder::TagListBuilder way_tag_builder{way_builder};
-                bool has_oneway = false;
                 const auto &tags = _tag_helper.edge_tags(edge.id);
                 for (const auto &tag : tags) {
                     const auto pair = _tag_helper.tag(tag);
-                    if (pair.first == "oneway") {
-                        if (pair.second == "yes") {
-                            // one way detected, don't add again later
-                            has_oneway = true;
-                        } else if (pair.second == "-1" or pair.second == "reverse") {
-                            // skip reverse tags as they were corrected on import
-                            continue;
-                        }
+                    if (is_oneway and pair.first == "oneway") {
+                        // skip oneway tags as reverse tags were corrected on import and the tag is added later
+                        continue;
                     }
                     way_tag_builder.add_tag(pair.first, pair.second);
                 }
-                if (not has_oneway and is_oneway) {
+                if (is_oneway) {
                     way_tag_builder.add_tag("oneway", "yes");
                 }
             }
-- 
2.43.0


From f7d4bd334715bc72d182e6915369d39638c89dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 53/63] fix: nodes of arc node, melbourne and giscup networks
 are reprojected

---
 .../include/geometry/algorithm/reproject.hpp        | 13 +++++++++++++
 .../include/io/network/arc_node_importer.hpp        |  6 ++++--
 src/library/include/io/network/giscup_importer.hpp  |  6 ++++--
 .../include/io/network/melbourne_importer.hpp       |  6 ++++--
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index a45608a..4557270 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -48,6 +48,19 @@ namespace map_matching_2::geometry {
         }, reprojector_variant);
     }
 
+    // coordinates in the srs the reprojector transforms from become a point in the srs it transforms to
+    template<typename OutPoint, typename Coordinate>
+    [[nodiscard]] OutPoint reproject_coordinates(const Coordinate x, const Coordinate y,
+            const point_reprojector_variant &reprojector_variant) {
+        OutPoint out_point{};
+        std::visit([&]<typename PointReprojector>(PointReprojector &&reprojector) {
+            using in_point_type = typename std::remove_cvref_t<PointReprojector>::in_point_type;
+
+            reproject_point(in_point_type{x, y}, out_point, reprojector_variant);
+        }, reprojector_variant);
+        return out_point;
+    }
+
     template<typename InLine, typename OutLine>
     void reproject_line(const InLine &in_line, OutLine &out_line,
             const point_reprojector_variant &reprojector_variant) {
diff --git a/src/library/include/io/network/arc_node_importer.hpp b/src/library/include/io/network/arc_node_importer.hpp
index 23d87fa..cb48eab 100644
--- a/src/library/include/io/network/arc_node_importer.hpp
+++ b/src/library/include/io/network/arc_node_importer.hpp
@@ -33,6 +33,7 @@
 #include "types/geometry/network/node.hpp"
 #include "types/geometry/network/edge.hpp"
 
+#include "geometry/algorithm/reproject.hpp"
 #include "geometry/network/traits/network.hpp"
 #include "geometry/rich_type/traits/rich_line.hpp"
 
@@ -74,9 +75,10 @@ namespace map_matching_2::io::network {
                 std::uint64_t id = 0;
                 while (std::getline(nodes, line)) {
                     boost::split(parts, line, boost::is_any_of("\t;,| "));
-                    point_type point{std::stod(parts.at(0)), std::stod(parts.at(1))};
+                    point_type point = geometry::reproject_coordinates<point_type>(
+                            std::stod(parts.at(0)), std::stod(parts.at(1)), _reprojector_variant);
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
-                            vertex_data_type{id++, std::move(point), _reprojector_variant});
+                            vertex_data_type{id++, std::move(point)});
                     _node_map.emplace_back(vertex_index);
                 }
 
diff --git a/src/library/include/io/network/giscup_importer.hpp b/src/library/include/io/network/giscup_importer.hpp
index 3788ab5..5f271ad 100644
--- a/src/library/include/io/network/giscup_importer.hpp
+++ b/src/library/include/io/network/giscup_importer.hpp
@@ -30,6 +30,7 @@
 
 #include "types/geometry/reprojector.hpp"
 
+#include "geometry/algorithm/reproject.hpp"
 #include "geometry/network/traits/network.hpp"
 
 #include "../importer.hpp"
@@ -73,11 +74,12 @@ namespace map_matching_2::io::network {
                     boost::split(parts, line, boost::is_any_of(" "));
 
                     const vertex_size_type node_id = std::stol(parts.at(0));
-                    point_type point{std::stod(parts.at(2)), std::stod(parts.at(1))};
+                    point_type point = geometry::reproject_coordinates<point_type>(
+                            std::stod(parts.at(2)), std::stod(parts.at(1)), _reprojector_variant);
 
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
                             vertex_data_type{
-                                    static_cast<std::uint64_t>(node_id), std::move(point), _reprojector_variant
+                                    static_cast<std::uint64_t>(node_id), std::move(point)
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
diff --git a/src/library/include/io/network/melbourne_importer.hpp b/src/library/include/io/network/melbourne_importer.hpp
index b96cfb5..764ff3a 100644
--- a/src/library/include/io/network/melbourne_importer.hpp
+++ b/src/library/include/io/network/melbourne_importer.hpp
@@ -30,6 +30,7 @@
 
 #include "types/geometry/reprojector.hpp"
 
+#include "geometry/algorithm/reproject.hpp"
 #include "geometry/network/traits/network.hpp"
 
 #include "../importer.hpp"
@@ -75,11 +76,12 @@ namespace map_matching_2::io::network {
                     boost::split(parts, line, boost::is_any_of(" "));
 
                     const vertex_size_type node_id = std::stol(parts.at(0));
-                    point_type point{std::stod(parts.at(2)), std::stod(parts.at(3))};
+                    point_type point = geometry::reproject_coordinates<point_type>(
+                            std::stod(parts.at(2)), std::stod(parts.at(3)), _reprojector_variant);
 
                     const vertex_size_type vertex_index = _graph_helper.add_vertex_with_index_mapping(
                             vertex_data_type{
-                                    static_cast<std::uint64_t>(node_id), std::move(point), _reprojector_variant
+                                    static_cast<std::uint64_t>(node_id), std::move(point)
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
-- 
2.43.0


From 7afb41519df44bd82885f384ed8fd1a66d6c7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 54/63] fix: the lines of giscup and seattle networks are
 reprojected like their nodes

---
 src/library/include/io/network/giscup_importer.hpp  | 9 +++++----
 src/library/include/io/network/seattle_importer.hpp | 9 +++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/library/include/io/network/giscup_importer.hpp b/src/library/include/io/network/giscup_importer.hpp
index 5f271ad..9da631a 100644
--- a/src/library/include/io/network/giscup_importer.hpp
+++ b/src/library/include/io/network/giscup_importer.hpp
@@ -117,10 +117,11 @@ namespace map_matching_2::io::network {
                     // const std::string name = parts.at(1);
                     // const std::string type = parts.at(2);
 
-                    line_type geometry;
-                    geometry.reserve(parts.size() > 4 ? parts.size() - 4 : 0);
+                    line_type edge_line;
+                    edge_line.reserve(parts.size() > 4 ? parts.size() - 4 : 0);
                     for (std::size_t j = 4; j + 1 < parts.size(); j += 2) {
-                        geometry.emplace_back(point_type{std::stod(parts.at(j + 1)), std::stod(parts.at(j))});
+                        edge_line.emplace_back(geometry::reproject_coordinates<point_type>(
+                                std::stod(parts.at(j + 1)), std::stod(parts.at(j)), _reprojector_variant));
                     }
 
                     auto [from_node_id, to_node_id] = _edge_map.at(edge_id);
@@ -134,7 +135,7 @@ namespace map_matching_2::io::network {
 
                     _graph_helper.add_edge(
                             from_vertex, to_vertex, edge_data_type{
-                                    edge_id, rich_line_type{std::move(geometry)}
+                                    edge_id, rich_line_type{std::move(edge_line)}
                             });
                 }
             }
diff --git a/src/library/include/io/network/seattle_importer.hpp b/src/library/include/io/network/seattle_importer.hpp
index cc3c163..7e727b3 100644
--- a/src/library/include/io/network/seattle_importer.hpp
+++ b/src/library/include/io/network/seattle_importer.hpp
@@ -27,6 +27,7 @@
 
 #include <osmium/osm.hpp>
 
+#include "geometry/algorithm/reproject.hpp"
 #include "geometry/network/traits/network.hpp"
 #include "types/geometry/reprojector.hpp"
 
@@ -82,13 +83,17 @@ namespace map_matching_2::io::network {
 
                     line_type edge_line;
                     boost::geometry::read_wkt(wkt_line, edge_line);
+                    for (point_type &point : edge_line) {
+                        point = geometry::reproject_coordinates<point_type>(
+                                boost::geometry::get<0>(point), boost::geometry::get<1>(point), _reprojector_variant);
+                    }
 
                     vertex_size_type from_vertex;
                     if (not _vertex_map.contains(from_node_id)) {
                         const point_type &from_point = edge_line.front();
                         from_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
-                                        from_node_id, from_point, _reprojector_variant
+                                        from_node_id, from_point
                                 });
                         _vertex_map.emplace(from_node_id, from_vertex);
                     } else {
@@ -100,7 +105,7 @@ namespace map_matching_2::io::network {
                         const point_type &to_point = edge_line.back();
                         to_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
-                                        to_node_id, to_point, _reprojector_variant
+                                        to_node_id, to_point
                                 });
                         _vertex_map.emplace(to_node_id, to_vertex);
                     } else {
-- 
2.43.0


From 9d1bab8c27dc9ca8f5b2681fca76be359ea5a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:35 +0000
Subject: [PATCH 55/63] fix: points of a track with equal times keep their
 order

---
 src/library/include/io/track/csv_track_importer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/track/csv_track_importer.hpp b/src/library/include/io/track/csv_track_importer.hpp
index 04982d1..601bfed 100644
--- a/src/library/include/io/track/csv_track_importer.hpp
+++ b/src/library/include/io/track/csv_track_importer.hpp
@@ -226,7 +226,7 @@ namespace map_matching_2::io::track {
                     if (_selectors.empty() or _selectors.contains(id)) {
                         auto &measurements = std::any_cast<std::vector<measurement_type_out> &>(
                                 measurement_pair.second);
-                        std::sort(std::begin(measurements), std::end(measurements));
+                        std::stable_sort(std::begin(measurements), std::end(measurements));
                         _forwarder.pass(multi_track_type{
                                 id, geometry::measurements2line<measurement_type_out, line_type_out>(
                                         std::move(measurements))
-- 
2.43.0


From e3162ba7f13a850a6d6ac818d5699d5d79117657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 56/63] fix: a list naming an edge that does not exist is
 skipped as announced

---
 src/library/include/io/track/edges_list_importer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/track/edges_list_importer.hpp b/src/library/include/io/track/edges_list_importer.hpp
index bc4619f..46c170d 100644
--- a/src/library/include/io/track/edges_list_importer.hpp
+++ b/src/library/include/io/track/edges_list_importer.hpp
@@ -150,8 +150,8 @@ namespace map_matching_2::io::track {
                             }
                             prev_edge_id = edge_id;
 
-                            const auto &edge_descriptors = _edge_map.at(edge_id);
-                            if (edge_descriptors.empty()) {
+                            const auto edge_search = _edge_map.find(edge_id);
+                            if (edge_search == _edge_map.end()) {
                                 std::cerr << std::format(
                                         "file '{}' contains edge with id {} but no such edge exists in the network, skipping ...",
                                         filenames[i], edge_id) << std::endl;
@@ -159,7 +159,7 @@ namespace map_matching_2::io::track {
                                 break;
                             }
 
-                            edge_descriptor_list.emplace_back(edge_descriptors);
+                            edge_descriptor_list.emplace_back(edge_search->second);
                         }
                     }
 
-- 
2.43.0


From 787da1451f51c2151d21068d59c4362e7463efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 57/63] fix: multi lines with empty lines in them have no
 direction there

---
 .../geometry/rich_type/multi_rich_line.hpp    | 22 +++++++++----------
 .../rich_type/multi_rich_line_data.hpp        |  8 +++----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/library/include/geometry/rich_type/multi_rich_line.hpp b/src/library/include/geometry/rich_type/multi_rich_line.hpp
index 7b9dc5e..267adbe 100644
--- a/src/library/include/geometry/rich_type/multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/multi_rich_line.hpp
@@ -165,7 +165,7 @@ namespace map_matching_2::geometry {
                 if (size() == 1) {
                     const auto &rich_line = front();
                     return rich_line.has_azimuth();
-                } else {
+                } else if (not front().empty() and not back().empty()) {
                     const auto &start = front().front();
                     const auto &end = back().back();
                     return not geometry::equals_points(start, end);
@@ -182,7 +182,7 @@ namespace map_matching_2::geometry {
                     if (rich_line.has_azimuth()) {
                         return rich_line.azimuth();
                     }
-                } else {
+                } else if (not front().empty() and not back().empty()) {
                     const auto &start = front().front();
                     const auto &end = back().back();
                     if (not geometry::equals_points(start, end)) {
@@ -207,9 +207,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 return true;
                             }
                         }
@@ -239,9 +239,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 angle_type direction = geometry::direction_deg(
                                         rich_line.azimuth(rich_line.size() - 2), next.azimuth(0));
                                 directions += direction;
@@ -278,9 +278,9 @@ namespace map_matching_2::geometry {
                         }
                         if (i + 1 < size()) {
                             const auto &next = operator[](i + 1);
-                            if (geometry::equals_points(rich_line.back(), next.front()) and
-                                rich_line.size() >= 2 and rich_line.has_azimuth(rich_line.size() - 2) and
-                                next.size() >= 2 and next.has_azimuth(0)) {
+                            if (rich_line.size() >= 2 and next.size() >= 2 and
+                                geometry::equals_points(rich_line.back(), next.front()) and
+                                rich_line.has_azimuth(rich_line.size() - 2) and next.has_azimuth(0)) {
                                 angle_type direction = geometry::direction_deg(
                                         rich_line.azimuth(rich_line.size() - 2), next.azimuth(0));
                                 directions += std::fabs(direction);
diff --git a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
index 8a48590..f1b28fd 100644
--- a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
@@ -176,7 +176,7 @@ namespace map_matching_2::geometry {
                         if (rich_line.has_azimuth()) {
                             this->_azimuth = rich_line.azimuth();
                         }
-                    } else {
+                    } else if (not multi_rich_line.front().empty() and not multi_rich_line.back().empty()) {
                         const auto &start = multi_rich_line.front().front();
                         const auto &end = multi_rich_line.back().back();
                         if (not geometry::equals_points(start, end)) {
@@ -196,9 +196,9 @@ namespace map_matching_2::geometry {
                         const auto &start = multi_rich_line[i];
                         const auto &end = multi_rich_line[i + 1];
 
-                        if (geometry::equals_points(start.back(), end.front()) and
-                            start.size() >= 2 and start.has_azimuth(start.size() - 2) and
-                            end.size() >= 2 and end.has_azimuth(0)) {
+                        if (start.size() >= 2 and end.size() >= 2 and
+                            geometry::equals_points(start.back(), end.front()) and
+                            start.has_azimuth(start.size() - 2) and end.has_azimuth(0)) {
                             // used for directions between lines here
                             this->_azimuths.emplace_back(geometry::direction_deg(
                                     start.azimuth(start.size() - 2), end.azimuth(0)));
-- 
2.43.0


From 0b136ae339a5f6ada9e17ee5be74c75123669361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 58/63] fix: file types of tracks given for comparing are not
 ignored

---
 src/app/src/app/options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/src/app/options.cpp b/src/app/src/app/options.cpp
index f3b4641..4464f07 100644
--- a/src/app/src/app/options.cpp
+++ b/src/app/src/app/options.cpp
@@ -233,7 +233,8 @@ namespace map_matching_2::app {
                 throw std::invalid_argument{"no tracks file specified, please see help."};
             }
 
-            if (vm["tracks-file-type"].empty() and vm["match-file-type"].empty() and vm["compare-file-type"].empty()) {
+            if (file_extension.empty()) {
+                // no file type was specified manually
                 std::string _file_extension{};
                 for (const auto &file : files) {
                     file_extension = std::filesystem::path(file).extension().string();
-- 
2.43.0


From ccdd4883de3a6b2272986cad9b8a77401da5aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 59/63] fix: unknown columns of result files are empty instead
 of missing in the rows

---
 src/library/include/io/results/compare/csv_compare_exporter.hpp  | 1 +
 src/library/include/io/results/match/csv_candidates_exporter.hpp | 1 +
 src/library/include/io/results/match/csv_match_exporter.hpp      | 1 +
 src/library/include/io/results/track/csv_track_exporter.hpp      | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/library/include/io/results/compare/csv_compare_exporter.hpp b/src/library/include/io/results/compare/csv_compare_exporter.hpp
index 3ba94a4..84b9299 100644
--- a/src/library/include/io/results/compare/csv_compare_exporter.hpp
+++ b/src/library/include/io/results/compare/csv_compare_exporter.hpp
@@ -226,6 +226,7 @@ namespace map_matching_2::io::results {
                         result.emplace_back(task.error_misses);
                         break;
                     default:
+                        result.emplace_back();
                         break;
                 }
             }
diff --git a/src/library/include/io/results/match/csv_candidates_exporter.hpp b/src/library/include/io/results/match/csv_candidates_exporter.hpp
index 5c06429..e4fa1ce 100644
--- a/src/library/include/io/results/match/csv_candidates_exporter.hpp
+++ b/src/library/include/io/results/match/csv_candidates_exporter.hpp
@@ -229,6 +229,7 @@ namespace map_matching_2::io::results {
                                 row.emplace_back(std::to_string(_result.is_result));
                                 break;
                             default:
+                                row.emplace_back();
                                 break;
                         }
                     }
diff --git a/src/library/include/io/results/match/csv_match_exporter.hpp b/src/library/include/io/results/match/csv_match_exporter.hpp
index 18ad7f9..dd3e862 100644
--- a/src/library/include/io/results/match/csv_match_exporter.hpp
+++ b/src/library/include/io/results/match/csv_match_exporter.hpp
@@ -194,6 +194,7 @@ namespace map_matching_2::io::results {
                         result.emplace_back(task.edge_ids);
                         break;
                     default:
+                        result.emplace_back();
                         break;
                 }
             }
diff --git a/src/library/include/io/results/track/csv_track_exporter.hpp b/src/library/include/io/results/track/csv_track_exporter.hpp
index 89b62a7..f89f3da 100644
--- a/src/library/include/io/results/track/csv_track_exporter.hpp
+++ b/src/library/include/io/results/track/csv_track_exporter.hpp
@@ -95,6 +95,7 @@ namespace map_matching_2::io::results {
                         result.emplace_back(task.track);
                         break;
                     default:
+                        result.emplace_back();
                         break;
                 }
             }
-- 
2.43.0


From 8dad52028efaf4bb613f00f7d749b680633f29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:33 +0000
Subject: [PATCH 60/63] fix: segments of a compare column asked for twice are
 not written twice

---
 .../include/io/results/compare/csv_compare_exporter.hpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/include/io/results/compare/csv_compare_exporter.hpp b/src/library/include/io/results/compare/csv_compare_exporter.hpp
index 84b9299..7a23a36 100644
--- a/src/library/include/io/results/compare/csv_compare_exporter.hpp
+++ b/src/library/include/io/results/compare/csv_compare_exporter.hpp
@@ -76,6 +76,7 @@ namespace map_matching_2::io::results {
                             }
                             break;
                         case column::CORRECTS:
+                            corrects.clear();
                             corrects.reserve(compare_result.comparison.corrects.size());
                             for (const auto &correct : compare_result.comparison.corrects) {
                                 corrects.emplace_back(line_type{correct.first(), correct.second()});
@@ -83,6 +84,7 @@ namespace map_matching_2::io::results {
                             corrects_wkt = geometry::to_wkt(corrects);
                             break;
                         case column::ERROR_ADDS:
+                            error_adds.clear();
                             error_adds.reserve(compare_result.comparison.error_adds.size());
                             for (const auto &error_add : compare_result.comparison.error_adds) {
                                 error_adds.emplace_back(line_type{error_add.first(), error_add.second()});
@@ -90,6 +92,7 @@ namespace map_matching_2::io::results {
                             error_adds_wkt = geometry::to_wkt(error_adds);
                             break;
                         case column::ERROR_MISSES:
+                            error_misses.clear();
                             error_misses.reserve(compare_result.comparison.error_misses.size());
                             for (const auto &error_miss : compare_result.comparison.error_misses) {
                                 error_misses.emplace_back(line_type{error_miss.first(), error_miss.second()});
-- 
2.43.0


From da937cd5863bbf7f79f9e8fc09607c9f8446d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:07 +0000
Subject: [PATCH 61/63] fix: the heuristic of the search does not overestimate
 over the antimeridian

---
 .../include/geometry/network/network.hpp       | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 1b558da..9d53fad 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -295,9 +295,21 @@ namespace map_matching_2::geometry::network {
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
                     const vertex_descriptor &goal_desc) constexpr {
-                return geometry::euclidean_distance(
-                        this->graph().get_vertex_data(vertex_desc).point,
-                        this->graph().get_vertex_data(goal_desc).point);
+                auto point = this->graph().get_vertex_data(vertex_desc).point;
+                const auto &goal_point = this->graph().get_vertex_data(goal_desc).point;
+
+                if constexpr (not std::same_as<typename boost::geometry::coordinate_system<point_type>::type,
+                    geometry::cs_cartesian>) {
+                    // the way over the antimeridian is never overestimated
+                    const auto difference = boost::geometry::get<0>(goal_point) - boost::geometry::get<0>(point);
+                    if (difference > 180) {
+                        boost::geometry::set<0>(point, boost::geometry::get<0>(point) + 360);
+                    } else if (difference < -180) {
+                        boost::geometry::set<0>(point, boost::geometry::get<0>(point) - 360);
+                    }
+                }
+
+                return geometry::euclidean_distance(point, goal_point);
             };
 
             goal_visitor<decltype(weight_func)> visitor{
-- 
2.43.0


From 6256b4e9a14f1ed1c413040e32c793023e9f4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 62/63] fix: points of a gpx track with equal times keep their
 order

---
 src/library/include/io/track/gpx_track_importer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/track/gpx_track_importer.hpp b/src/library/include/io/track/gpx_track_importer.hpp
index 27feef4..c82ae8e 100644
--- a/src/library/include/io/track/gpx_track_importer.hpp
+++ b/src/library/include/io/track/gpx_track_importer.hpp
@@ -175,7 +175,7 @@ namespace map_matching_2::io::track {
                 }
             }
 
-            std::sort(std::begin(measurements), std::end(measurements));
+            std::stable_sort(std::begin(measurements), std::end(measurements));
 
             return geometry::measurements2line<measurement_type_out, line_type_out>(measurements);
         };
-- 
2.43.0


From 167d17f7d0fa2a362b79114af5b4188e8e4efcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:04 +0000
Subject: [PATCH 63/63] fix: osm nodes are imported in a spherical srs-type too

---
 src/library/include/io/helper/osm_handler_helper.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/include/io/helper/osm_handler_helper.hpp b/src/library/include/io/helper/osm_handler_helper.hpp
index bf25807..8f76bde 100644
--- a/src/library/include/io/helper/osm_handler_helper.hpp
+++ b/src/library/include/io/helper/osm_handler_helper.hpp
@@ -24,6 +24,7 @@
 #include "types/geometry/network/edge.hpp"
 #include "types/geometry/reprojector.hpp"
 
+#include "geometry/algorithm/reproject.hpp"
 #include "geometry/rich_type/traits/rich_line.hpp"
 #include "geometry/network/traits/network.hpp"
 
@@ -108,7 +109,7 @@ namespace map_matching_2::io::helper {
         }
 
         void add_node(const osmium::Node &osm_node, const geometry::point_reprojector_variant &reprojector_variant) {
-            using osm_point_type = geometry::point_type<geometry::cs_geographic>;
+            using osm_point_type = typename vertex_type::point_type;
 
             const auto _add_node = [&]() {
                 const auto id = static_cast<std::uint64_t>(osm_node.id());
@@ -118,7 +119,8 @@ namespace map_matching_2::io::helper {
                     _sort_vertices = true;
                 }
                 vertices().emplace_back(osm_vertex_type{
-                        id, osm_point_type{node_location.lon(), node_location.lat()}, reprojector_variant
+                        id, geometry::reproject_coordinates<osm_point_type>(
+                                node_location.lon(), node_location.lat(), reprojector_variant)
                 });
             };
 
-- 
2.43.0

