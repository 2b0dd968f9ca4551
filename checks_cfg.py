"""Harnesses, and the catalogue of properties with what decides each (gen.py turns it into properties.jsonl and
MANIFEST.json; vp.py runs it)."""
SRS = ["src/library/src/geometry/cache.cpp", ("src/library/src/geometry/srs.cpp", "-O0"), "src/library/src/geometry/algorithm/reproject.cpp",
       "src/library/src/io/importer.cpp"]
OSM_LIBS = ["-lboost_serialization", "-lz", "-lbz2", "-lexpat", "-lpthread"]
HARNESSES = {
    "graph_ops": {"src": ["graph_ops.cpp"], "libs": ["-lboost_serialization"]},
    "network_import": {"src": ["network_import.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp"], "stub_csv": True,
                       "libs": ["-lboost_serialization"],
                       "flags": ["-fsanitize=address", "-fno-omit-frame-pointer"]},
    "network_search": {"src": ["network_search.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp"], "stub_csv": True,
                       "libs": ["-lboost_serialization"]},
    "rich_lines": {"src": ["rich_lines.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp"],
                   "libs": ["-lboost_serialization"]},
    "coordinator": {"src": ["coordinator.cpp"], "repo_src": ["src/library/src/io/file_exporter.cpp"], "stub_csv": True,
                    "libs": ["-lboost_thread", "-lboost_chrono", "-ldl"]},
    "routes": {"src": ["routes.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp"], "libs": ["-lboost_serialization"],
               "flags": ["-fsanitize=address", "-fno-omit-frame-pointer"]},
    "tracks": {"src": ["tracks.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp", "src/library/src/util/time_helper.cpp"],
               "stub_csv": True, "libs": ["-lboost_serialization"]},
    "matching": {"src": ["matching.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp", "src/library/src/util/time_helper.cpp"],
                 "stub_csv": True, "libs": ["-lboost_serialization"]},
    "matches": {"src": ["matches.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp", "src/library/src/util/time_helper.cpp",
                "src/library/src/io/file_exporter.cpp", "src/library/src/matching/matcher/match_task.cpp"],
                "stub_csv": True, "libs": ["-lboost_serialization", "-lboost_thread", "-lboost_chrono"]},
    "kernel": {"src": ["kernel.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp"], "libs": ["-lboost_serialization"]},
    "compare": {"src": ["compare.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp"], "libs": ["-lboost_serialization"]},
    "pairing": {"src": ["pairing.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp", "src/library/src/io/file_exporter.cpp", "src/library/src/compare/comparator.cpp",
                "src/library/src/compare/comparator/comparator_forwarder_data.cpp", "src/library/src/compare/comparator/comparator_forwarder_matches.cpp",
                "src/library/src/compare/comparator/comparator_forwarder_compares.cpp", "src/library/src/compare/comparator/compare_task.cpp"],
                "stub_csv": True, "libs": ["-lboost_serialization", "-lboost_thread", "-lboost_chrono"]},
    "tags": {"src": ["tags.cpp"], "libs": ["-lboost_serialization", "-Wl,--wrap=mmap"]},
    "tags_moving": {"src": ["tags.cpp"], "libs": ["-lboost_serialization", "-Wl,--wrap=mmap"], "flags": ["-DMOVING"]},
    "storage": {"src": ["storage.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp", "src/library/src/io/importer.cpp"], "stub_csv": True,
                "libs": ["-lboost_serialization", "-Wl,--wrap=mmap"]},
    "storage_moving": {"src": ["storage.cpp"], "repo_src": ["src/library/src/geometry/cache.cpp", "src/library/src/io/importer.cpp"], "stub_csv": True,
                       "libs": ["-lboost_serialization", "-Wl,--wrap=mmap"], "flags": ["-DMOVING"]},
    "osm": {"src": ["osm.cpp"], "repo_src": SRS, "stub_csv": True, "libs": OSM_LIBS},
    "osm_export": {"src": ["osm.cpp"], "repo_src": SRS + ["src/library/src/io/file_exporter.cpp"], "stub_csv": True, "libs": OSM_LIBS, "flags": ["-DEXPORT"]},
    "osm_files": {"src": ["osm.cpp"], "repo_src": SRS, "stub_csv": True, "libs": OSM_LIBS + ["-Wl,--wrap=mmap"], "flags": ["-DFILES"]},
    "formats": {"src": ["formats.cpp"], "repo_src": SRS, "stub_csv": True, "libs": ["-lboost_serialization"]},
    "imports": {"src": ["imports.cpp"], "repo_src": SRS + ["src/library/src/io/csv_importer.cpp"],
                "stub_csv": True, "libs": ["-lboost_serialization"]},
    "program": {"src": ["program.cpp", "program_prepare.cpp"]
                + [("program_opened.cpp", f"-DPART_CS={c}") for c in ("Geo", "Sph", "Cart")]
                + [("program_part.cpp", f"-DPART_CS={c} -DPART_GRAPH={g} -DPART_TAGS={t}") for c in ("Geo", "Sph", "Cart")
                   for g in ("Memory", "File") for t in ("Memory", "File")],
                "repo_src": SRS + ["src/app/src/app/network.cpp", "src/app/src/app/options.cpp", "src/app/src/app/settings.cpp", "src/app/src/app/general.cpp",
                                   "src/library/src/io/file_exporter.cpp"],
                "stub_csv": True, "libs": OSM_LIBS + ["-lboost_program_options"],
                "flags": ["-O0", "-include", "moving_map.hpp", "-include", "flat_map_serialization.hpp"]},
    "comparing": {"src": ["comparing.cpp"],
                  "repo_src": ["src/library/src/" + f for f in ("compare/comparator.cpp", "compare/comparator/comparator_forwarder_data.cpp",
                               "compare/comparator/comparator_forwarder_matches.cpp", "compare/comparator/comparator_forwarder_compares.cpp",
                               "compare/comparator/compare_task.cpp", "io/csv_importer.cpp", "io/file_exporter.cpp")]
                  + [f for f in SRS if "csv_importer" not in f] + ["src/app/src/app/options.cpp", "src/app/src/app/settings.cpp", "src/app/src/app/general.cpp"],
                  "stub_csv": True, "libs": OSM_LIBS + ["-lboost_program_options", "-lboost_thread", "-lboost_chrono"], "flags": ["-O0"]},
    "learning": {"src": ["learning.cpp"]},
    "options": {"src": ["options.cpp"], "repo_src": ["src/library/src/geometry/srs.cpp", "src/app/src/app/options.cpp", "src/app/src/app/settings.cpp",
                "src/app/src/app/general.cpp"], "libs": ["-lboost_program_options"]},
    "graph_paths": {"src": ["graph_paths.cpp"], "libs": ["-lboost_serialization"]},
}

INC = "src/library/include/"
GD = INC + "graph/"
TECH = "explicit-state exploration of the real code against a reference model"


def P(title, statement, over, quant, why, files, mech, harness, rule, bounds, note, args=None, technique=TECH,
      level="model_checking", assumptions=()):
    return dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                harness=harness, rule=rule, bounds=bounds, note=note, args=args or {}, technique=technique,
                level=level, assumptions=list(assumptions))


CHECKS = {}
CHECKS["G01"] = P(
    "Graph edits keep the directed multigraph exact",
    "After any sequence of adding and removing vertices and edges, clearing vertices, reindexing, copying and moving, "
    "an adjacency-list graph holds exactly the vertices, edges and properties of the mathematical directed multigraph "
    "the same edits produce. Every view agrees with it: vertex and edge iteration in both directions and by position "
    "(also negative), out- and in-edges per vertex, degrees, sources and targets, and property lookups; counts and "
    "handles stay valid for everything not removed. An edit that is not allowed (removing a vertex with connected "
    "edges, or a position out of range) leaves the graph unchanged.",
    ["histories", "configurations"],
    "every edit history up to the depth bound on every container combination (list, vector) and direction kind",
    "the tests build a handful of fixed graphs; a stale neighbour list shows only after a particular order of edits",
    [GD + "adjacency_list.hpp", GD + "container_view.hpp"],
    [("add/remove vertices and edges", GD + "adjacency_list.hpp"), ("views over vertices and edges", GD + "container_view.hpp")],
    ["graph_ops"],
    "breadth-first search over reference multigraph states; every operation from every state is replayed on a fresh "
    "real graph and all views are compared after each step; non-trivial: histories longer than three edits",
    {"quick": "3 vertices, 4 edges, depth 9 (7 on mixed containers), 3 directions x 4 container combinations",
     "thorough": "3 vertices, 5 edges, depth 10 (9 on mixed containers)"},
    "Exhaustive within the bounds on the real templates with integer properties. Trusts the reference multigraph in the "
    "harness. Removing a vertex of a purely directional graph that still has ingoing edges is outside the contract "
    "(such a graph cannot see them).")
CHECKS["G02"] = P(
    "The compact graph is equivalent to the editable graph it is baked from",
    "Converting any editable graph to the compact row-based form preserves the vertices and their order and payloads, "
    "each vertex's outgoing edges in order with their payloads, sources and targets, and each degree; nothing is added "
    "or lost, with gaps, parallel edges and self loops as well. Copies, moves and an archive round trip of the compact "
    "form are equal to it.",
    ["histories", "configurations"],
    "every editable graph reachable within the bounds, in every container combination and direction kind",
    "one conversion of one fixed graph is tested; gaps, parallel edges and self loops at row boundaries are not",
    [GD + "compressed_sparse_row.hpp", GD + "container_subview.hpp", GD + "container_view.hpp"],
    [("conversion", GD + "compressed_sparse_row.hpp")],
    ["graph_ops"],
    "every reachable (clean) multigraph state is baked and every view of the result compared; non-trivial: built by "
    "more than three edits",
    {"quick": "3 vertices, 4 edges", "thorough": "4 vertices, 4 edges"},
    "Exhaustive within the bounds on the real conversion with integer properties.", args={"graph_ops": ["--bake"]})
CHECKS["G03"] = P(
    "Path searches are exact and early stops do not change results",
    "On every directed graph with non-negative edge weights, uniform-cost search and the heuristic search with an "
    "admissible consistent heuristic return the true shortest distances, and predecessors that form real paths of that "
    "length; unreachable vertices stay unreached. Breadth-first and depth-first traversal visit exactly the vertices "
    "reachable from the start, breadth-first in order of hop distance. Stopping at a goal yields the same distance and a valid path for that goal, on editable and compact "
    "graphs alike.",
    ["inputs", "configurations"],
    "every directed weighted multigraph within the bounds, every start and every goal",
    "one fixed graph per algorithm is tested; zero weights, ties, parallel edges and unreachable goals are not",
    [GD + "algorithm/dijkstra_shortest_path.hpp", GD + "algorithm/a_star_shortest_path.hpp",
     GD + "algorithm/breadth_first_search.hpp", GD + "algorithm/depth_first_search.hpp"],
    [("searches and visitors", GD + "algorithm/")],
    ["graph_paths"],
    "all assignments of edges and weights; oracle: Floyd-Warshall and reachability; non-trivial: at least one path of "
    "two or more edges",
    {"quick": "3 vertices/4 edges/weights 0,1,3; 4/4/1,3; 5/4/1", "thorough": "adds 3/5, 4/5, 5/4, 4/6"},
    "Exhaustive within the bounds on the real algorithms. Undirected graphs are traversed along their stored direction "
    "only, so the property is stated for directed graphs.")
NW = INC + "geometry/network/"
CHECKS["N02"] = P(
    "Simplifying the road network preserves every road and every route",
    "Simplification only removes nodes that merely join two road pieces (one way through, or both directions through). "
    "Every piece of road geometry, every remaining node and its number of connected roads, every shortest distance between "
    "remaining nodes, and reachability stay exactly the same; no joinable node is left and simplifying again changes "
    "nothing. Without complete merging, pieces of different road ids are never joined; with it, the merged road keeps the "
    "tags of all its parts without duplicates.",
    ["inputs", "configurations"],
    "every small road network (multisets of one- and two-way roads, loops, bent geometry, shared or different ids)",
    "the tests simplify a few hand-made networks; order of node removal, loops, parallel and antiparallel roads interact",
    [NW + "network_import.hpp"],
    [("simplify", NW + "network_import.hpp"), ("tag merging", INC + "io/memory_mapped/storage/tag_storage.hpp")],
    ["network_import"],
    "all multisets of roads over 3-5 fixed nodes are imported into the real network class, simplified, read back and "
    "compared with the reference network; non-trivial: at least one node disappears",
    {"quick": "4 nodes/3 roads with shapes, loops and ids; 5 nodes/5 roads; 3-4 nodes/4 roads",
     "thorough": "adds 4 nodes/4-5 roads with shapes and loops, 6 nodes/5 roads"},
    "Exhaustive within the bounds on the real in-memory network class.", args={"network_import": ["--simplify"]})
CHECKS["N03"] = P(
    "Network cleaning removes only unconnected parts and real duplicates",
    "Removing unconnected components keeps exactly one largest weakly connected part of the network, unchanged, and works "
    "on every network, the empty one included. Removing duplicate nodes leaves one node per coordinate, joins all roads of "
    "the nodes it replaces there and changes no distance between positions. Removing duplicate edges leaves exactly "
    "one edge per distinct road id and geometry. Run one after the other with simplification, as an import does, "
    "routes between the remaining positions keep their length.",
    ["inputs", "configurations"],
    "every small road network, every coincidence pattern of its nodes, every multiset of roads",
    "tests cover one network per step; coincident nodes and duplicates interact with simplification and edge removal",
    [NW + "network_import.hpp"],
    [("component and duplicate removal", NW + "network_import.hpp"),
     ("traversal", GD + "algorithm/breadth_first_search.hpp")],
    ["network_import"],
    "all multisets of roads over all coincidence patterns of the nodes, each cleaning step and the whole pipeline on the "
    "real class; oracle: quotient network, Floyd-Warshall, label propagation; non-trivial: something is removed",
    {"quick": "up to 5 nodes/4 roads per step, pipeline 4 nodes/3 roads", "thorough": "6 nodes/4 roads, pipeline 4/4 and 5/3"},
    "Exhaustive within the bounds on the real in-memory network class.", args={"network_import": ["--clean"]})
CHECKS["F01"] = P(
    "Simplification survives running out of storage at any point",
    "When an allocation fails at any point while the network is being simplified and the storage is grown and the call "
    "repeated, as the memory mapped import does, the final network is as correct as without the failure: no road "
    "geometry, node, tag or route is lost or duplicated and no joinable node is skipped.",
    ["fault_sequences", "inputs"],
    "every single allocation failure during simplification of every small road network",
    "tests never fail an allocation; what a half-done merge leaves behind shows only on the repeated call",
    [NW + "network_import.hpp", GD + "adjacency_list.hpp"],
    [("resumable simplification", NW + "network_import.hpp"), ("rollback of half-added edges", GD + "adjacency_list.hpp")],
    ["network_import"],
    "operator new fails at allocation 0..n-1 of simplify(), which is then called again; same oracle as N02; non-trivial: "
    "at least one allocation to fail",
    {"quick": "4 nodes/3 roads", "thorough": "adds 5 nodes/4 roads"},
    "Exhaustive over single failures within the bounds, in-memory containers standing in for mapped ones.",
    args={"network_import": ["--faults"]}, technique="exhaustive fault-point enumeration on the real code, explicit-state")
CHECKS["N01"] = P(
    "Bounded searches on a network find every shortest route within the limit",
    "On every prepared network, from every start, the one-to-many search reports exactly the asked goals whose true "
    "shortest distance is within the given limit (all reachable ones when the limit is disabled), and the goal-directed "
    "search reports its goal under the same condition and no path otherwise. Every reported path runs from start to goal "
    "over existing roads and is as long as the true shortest distance; the route extracted from it uses the shortest of "
    "parallel roads and has that length. Roads without extent count zero. Earlier searches do not influence later ones.",
    ["inputs", "configurations", "histories"],
    "every small road network, start, set of goals and distance limit, with shared search buffers",
    "tests route on one network without limits; limits, parallel and zero-length roads and unreachable goals interact",
    [NW + "network.hpp", NW + "network_base.hpp", GD + "algorithm/visitor.hpp"],
    [("searches and distance limit", NW + "network.hpp"), ("route extraction", NW + "network.hpp")],
    ["network_search"],
    "all multisets of roads on an integer lattice, all starts, goal sets and 14 limits on the real network class; oracle: "
    "Floyd-Warshall; non-trivial: at least one path between different nodes",
    {"quick": "4 nodes/4 roads, 3 nodes/4 roads with shapes and loops, coincident nodes; every choice of {none, straight, slightly longer} "
              "per ordered pair of nodes on cartesian and geographic places, also over the antimeridian",
     "thorough": "adds 4 nodes/6 roads, 5 nodes/4 roads, all 3^12 choices on 4 nodes for 5 detours, cartesian and geographic"},
    "Exhaustive within the bounds, in-memory network: cartesian with exact arithmetic, geographic with distances of the geometry library.", args={"network_search": ["--search"]})
CHECKS["I01"] = P(
    "The spatial index answers like a scan over all nodes and roads",
    "After building the indices of any network, they hold exactly its nodes and road segments with the right handles. Queries by distance, "
    "nearest neighbour, identifier, membership of a point in nodes or edge ends, fitting edge of a segment, and the "
    "bounds give what a scan over all nodes and segments gives; conversion into the prepared network keeps ids, geometry, "
    "lengths and tags.",
    ["inputs", "configurations"],
    "every small road network and a grid of query points",
    "tests query one network; which segment belongs to which edge matters with bends, parallel roads and shared points",
    [NW + "network.hpp", INC + "io/helper/index_helper.hpp", INC + "io/helper/graph_helper.hpp", INC + "io/helper/tag_helper.hpp"],
    [("index building and queries", NW + "network.hpp"), ("index storage", INC + "io/memory_mapped/storage/index_storage.hpp")],
    ["network_search"],
    "all multisets of roads on a lattice, 100 query points each, compared with brute force; non-trivial: two roads or more",
    {"quick": "up to 4 nodes/4 roads and 5/3", "thorough": "adds 4/4 with shapes and loops, 5/4"},
    "Exhaustive within the bounds, cartesian in-memory network.", args={"network_search": ["--index"]})
RT = INC + "geometry/rich_type/"
CHECKS["L01"] = P(
    "Derived data of lines is always that of their points",
    "The length, azimuth, turns and absolute turns of a line, as a whole and per segment, and whether each is available, "
    "are those of its current points. This holds for plain lines, lines that compute on demand and lines that compute at "
    "once, after any sequence of queries, edits (erasing points, cutting out a part, merging lines that meet, assigning, "
    "converting between the kinds and containers) and archive round trips: all kinds agree, nothing stale survives. "
    "Merging lines that do not meet and parts out of range are refused.",
    ["histories", "configurations"],
    "every sequence of edits and queries up to the depth bound from every start line",
    "the tests check a few lines after one edit; stale caches need a particular order of queries and edits",
    [RT + "rich_line_data.hpp", RT + "lazy_rich_line.hpp", RT + "eager_rich_line.hpp", RT + "rich_line.hpp"],
    [("cached data and its invalidation", RT + "rich_line_data.hpp"), ("line kinds", RT + "lazy_rich_line.hpp")],
    ["rich_lines"],
    "breadth-first search per start line over the object states (points and cached fields); after each step the object and "
    "copies of it in every kind are compared with values computed from the points; non-trivial: two points or more",
    {"quick": "0 to 4 points out of 4 coordinates, at most 5 points, depth 4 (3 from 3 points on)",
     "thorough": "at most 6 points, depth 5 (4 from 4 points)"},
    "Exhaustive within the bounds, cartesian coordinates. The sign of a full reversal is not prescribed.")
CHECKS["L02"] = P(
    "Derived data of lines made of several lines is that of their parts",
    "For a line made of several lines, length, azimuth (first to last point), turns and absolute turns (including the turn "
    "where consecutive parts meet) and whether each is available are those of its parts. Plain, on-demand and at-once kinds "
    "agree, also after converting, assigning over an older one, moving, and merging: parts that meet are joined, others kept.",
    ["inputs", "configurations"],
    "every combination of parts within the bounds, in every kind and conversion",
    "the tests have one multi line; empty derived data, closed parts and parts that meet or not interact",
    [RT + "multi_rich_line.hpp", RT + "multi_rich_line_data.hpp", RT + "lazy_multi_rich_line.hpp", RT + "eager_multi_rich_line.hpp"],
    [("data over several lines", RT + "multi_rich_line_data.hpp"), ("merging parts", RT + "multi_rich_line.hpp")],
    ["rich_lines"],
    "all combinations of up to three parts; oracle computed from the points; non-trivial: two parts or more",
    {"quick": "up to 2 parts of 3 points, 3 parts of 2 points, 3 coordinates",
     "thorough": "3 parts of 3 points, 4 parts of 2 points, 4 coordinates"},
    "Exhaustive within the bounds, cartesian coordinates.", args={"rich_lines": ["--multi"]})
RTE = INC + "geometry/network/route/"
SCHED = "stateless exploration of thread schedules of the real code with a bound on deviations"
CHECKS["Q01"] = P(
    "Every queued task is executed exactly once, under every schedule",
    "A task coordinator executes every task that was queued before it is stopped exactly once, whatever the timing of "
    "queueing, stopping and working. With one worker the tasks run in queue order; never do more tasks run at once than "
    "there are workers; open tasks stay within the queue sizes. A failing task neither stops nor blocks the others. "
    "join() returns after stop() when all tasks have ended, never before and never not at all.",
    ["schedules", "configurations"],
    "every schedule within the deviation bound, for 1 to 3 workers, queue sizes, failing tasks and late starts",
    "tests run a few tasks once; losing a task needs a switch between two reads of the queue's state",
    [INC + "util/coordinator.hpp"],
    [("queue, semaphore and thread pool", INC + "util/coordinator.hpp")],
    ["coordinator"],
    "all thread switches at lock, condition, semaphore, futex, create and join operations and all choices of the woken waiter, "
    "depth first, up to the deviation bound, each schedule checked; non-trivial: schedules with at least one deviation",
    {"quick": "2 to 4 deviations (3 for two workers and tasks), up to 3 workers and 3 tasks, 757,000 schedules",
     "thorough": "3 to 5 deviations, 22 million schedules"},
    "Exhaustive within the deviation bound at synchronization operations (sequentially consistent), also with spurious "
    "wake-ups; unsynchronized accesses between them are not interleaved. Schedules are replayed deterministically, "
    "which every run verifies.", technique=SCHED)
CHECKS["Q02"] = P(
    "Results of parallel workers are all written, once each, before shutdown ends",
    "In the pipeline of matcher and comparator (parallel workers that pass results to writers and printers with one thread "
    "each), every result of a task that did not fail is written exactly once and printed exactly once, rows one after the "
    "other below a single header line, and all of them before the owner is destroyed. With one worker the rows are in queue "
    "order. Failing tasks leave no row. Shutdown never hangs.",
    ["schedules", "configurations"],
    "every schedule within the deviation bound of one to three tasks through one or two workers and two writers",
    "tests never run the pipeline; losing the last rows needs a particular shutdown timing",
    [INC + "util/coordinator.hpp", INC + "io/results/csv_results_exporter.hpp", INC + "io/results/results_output_printer.hpp",
     INC + "io/csv_exporter.hpp", "src/library/src/io/file_exporter.cpp"],
    [("writers", INC + "io/results/csv_results_exporter.hpp"), ("coordination", INC + "util/coordinator.hpp")],
    ["coordinator"],
    "as Q01, on the real exporter and printer bases, the file read back after each schedule; non-trivial: schedules with at "
    "least one deviation",
    {"quick": "2 deviations for one task, else 1; 105,000 schedules", "thorough": "2 deviations; 568,000 schedules"},
    "Exhaustive within the deviation bound. The CSV formatter is a stand-in (the library it belongs to is not installed).",
    args={"coordinator": ["--chain"]}, technique=SCHED)
CHECKS["M03"] = P(
    "Value iteration and policy iteration return an optimal policy",
    "On every decision process without cycles in which each action leads to one next state with a reward of at most zero, "
    "value iteration and policy iteration end and return, from the start state on, a sequence of actions whose discounted "
    "reward is the best of all sequences (within the configured threshold), with the skipped steps resolved the way the "
    "matcher reads them; both agree. When stopped by request they return nothing, at any point of the computation.",
    ["inputs", "configurations"],
    "every decision process within the bounds, and every point at which a stop can be requested",
    "tests solve single hand-made environments; missing an update of one state needs particular reward combinations",
    [INC + "learning/algorithms/value_iteration.hpp", INC + "learning/algorithms/policy_iteration.hpp"],
    [("value iteration", INC + "learning/algorithms/value_iteration.hpp"),
     ("policy iteration", INC + "learning/algorithms/policy_iteration.hpp")],
    ["learning"],
    "all decision processes in the bounds, the oracle enumerates every action sequence; non-trivial: a choice with different outcomes",
    {"quick": "1 to 5 states, up to 3 actions, rewards 0, -1, -3 (2.9 million cases)", "thorough": "up to 6 states (26 million cases)"},
    "Exhaustive within the bounds; deterministic transitions as in the matching environment.")
CHECKS["M04"] = P(
    "The Viterbi algorithm returns a most probable path over all points",
    "For every hidden Markov model of the matcher, given as layers of states with emission and transition probabilities, the "
    "returned path starts at the first layer that has states, chooses one state per layer along possible transitions and has "
    "the highest total probability of all such paths. If none is possible, nothing is returned, and neither when stopped by "
    "request, at any point.",
    ["inputs", "configurations"],
    "every layered model within the bounds, and every point at which a stop can be requested",
    "tests decode a few models; backtracking errors show only when the best last state has a different predecessor",
    [INC + "learning/algorithms/viterbi.hpp"],
    [("decoding", INC + "learning/algorithms/viterbi.hpp")],
    ["learning"],
    "all models in the bounds, the oracle enumerates all paths; non-trivial: two possible paths or more",
    {"quick": "0 to 2 states per layer in up to 3 layers and larger single shapes (519,000 cases)",
     "thorough": "4 layers, layers of 3 states"},
    "Exhaustive within the bounds, transition probabilities out of a small set incl. impossible.", args={"learning": ["--viterbi"]})
CHECKS["R01"] = P(
    "Routes report what their lines give, and parts of them are independent",
    "A route (own lines and lines it refers to, in any mix) reports length, azimuth, turns, absolute turns, connectedness and "
    "attachment as its lines give them; plain, on-demand and at-once kinds agree, also after copying, assigning and moving. "
    "As one line and as several lines it has the same points. A part of a route (by lines, or by positions on the first and "
    "last line) is exactly that part, refused exactly when out of range, and stays valid after the original is gone.",
    ["inputs", "configurations"],
    "every combination of lines within the bounds, every mix of own and referred lines, every part of it",
    "tests take few parts of fixed routes; own lines behind referred ones dangle only when the original is gone",
    [RTE + "route.hpp", RTE + "route_data.hpp", RTE + "lazy_route.hpp", RTE + "eager_route.hpp"],
    [("derived data", RTE + "route_data.hpp"), ("parts of routes", RTE + "route.hpp")],
    ["routes"],
    "all routes within the bounds in three kinds, oracle computed from the points, run with an address sanitizer; non-trivial: "
    "two lines or more, or parts",
    {"quick": "up to 4 points per line, 3 to 4 lines, 4 coordinates; all positions", "thorough": "up to 5 lines"},
    "Exhaustive within the bounds, cartesian coordinates. A route with an empty line between two others counts as connected.")
CHECKS["R02"] = P(
    "Merging, joining and trimming routes keeps their geometry",
    "Merging routes gives all their lines in order, without routes that have no extent; gaps are kept, bridged or refused as "
    "asked; it is invalid exactly if all are. Joining moves the end of the first route to the second point of the next one "
    "and touches nothing else, if both meet and unless a reversal is to be kept. Trimming cuts the way out and back that "
    "both share, including a last part that only partially goes back, finds exactly that way, and is invalid if they do not "
    "meet. Derived data is right afterwards and the results are independent of the originals.",
    ["inputs", "configurations"],
    "every pair or triple of routes within the bounds, every mix of own and referred lines and options",
    "tests trim a few routes; lines of one point, repeated points and invalid routes in between interact",
    [RTE + "route.hpp", RTE + "lazy_route.hpp", RTE + "eager_route.hpp"],
    [("merging, joining and trimming", RTE + "route.hpp")],
    ["routes"],
    "as R01; non-trivial: routes that meet or are merged",
    {"quick": "1 to 3 lines of up to 3 points, up to 3 routes (183,000 pairs in 3 kinds)", "thorough": "4 points per line, up to 4 routes"},
    "Exhaustive within the bounds, cartesian coordinates. Trimming is specified for routes without gaps and without empty "
    "lines at their ends.", args={"routes": ["--merge"]})
CHECKS["K01"] = P(
    "Tracks are sanitised exactly as asked before they are matched",
    "Before matching, an environment removes exactly the points equal to their predecessor, then simplifies the line, then "
    "replaces each maximal run of consecutive points within the tolerance of the run's first point by their median point (the "
    "tolerance grows to half the distance to the nearest road if adaptive); each stage only if it is switched on, in this "
    "order, whatever the track. All other points, their order and the id are kept, the lengths are those of the prepared "
    "track, and there is exactly one candidate per prepared point, at this point.",
    ["inputs", "configurations"],
    "every track within the bounds, every combination of the stages, both kinds of environments",
    "tests match a few clean tracks with sanitising switched off; a track loses or keeps points silently",
    [INC + "matching/algorithm/detect.hpp", INC + "geometry/algorithm/median_merge.hpp", INC + "geometry/algorithm/median.hpp",
     INC + "environment/environments/single.hpp", INC + "environment/environments/hmm.hpp"],
    [("duplicates", INC + "matching/algorithm/detect.hpp"), ("point clouds", INC + "geometry/algorithm/median_merge.hpp"),
     ("what an environment makes of a track", INC + "environment/environments/single.hpp")],
    ["tracks"],
    "every sequence of points from a small set through the real stages and the real environments on a real network, compared "
    "with a plain computation; non-trivial: points are removed or merged",
    {"quick": "6 points of 5 or 6 positions, 5 tolerances; environments: 4 points, 16 settings", "thorough": "7 points; environments: 5 points"},
    "Exhaustive within the bounds, cartesian coordinates. The unused detection of forward-backward points is not covered.")
CHECKS["L04"] = P(
    "Line simplification keeps the shape within the tolerance and drops nothing else",
    "Simplifying a line (in any of its kinds), a part of a line or a list of segments gives an outcome of the Douglas-Peucker "
    "rule: the ends stay, the point farthest from the chord stays exactly if it is farther than the tolerance, and both sides "
    "are treated the same way; so each dropped point is within the tolerance of the part that replaces it. Points where the way "
    "turns straight back stay if asked. No point is moved or added, the segments stay connected, lengths are those of the "
    "result; an impossible part leaves the line as it is.",
    ["inputs", "configurations"],
    "every line within the bounds, every part of it, with and without reversals to keep",
    "tests simplify a handful of lines; repeated points, reversals and equally far points interact",
    [INC + "geometry/algorithm/simplify.hpp"],
    [("Douglas-Peucker on lines and on segments", INC + "geometry/algorithm/simplify.hpp")],
    ["tracks"],
    "every sequence of points from a small set is simplified by the real code and the result looked up in the set of all allowed "
    "outcomes; non-trivial: points are dropped",
    {"quick": "6 points of 6 positions, 4 tolerances; all parts of 5 points", "thorough": "7 points; all parts of 6 points"},
    "Exhaustive within the bounds, cartesian coordinates. Equally far points may be taken in any order.", args={"tracks": ["--simplify"]})
CHECKS["L03"] = P(
    "Parts of lines are cut exactly where asked",
    "The part of a line between two positions along it (given as distances, or as points on the line) starts and ends there, has "
    "all points of the line in between and no others, and is as long as the distance between the positions; if the second "
    "position is not behind the first one it is empty. The position of each point on a line that does not meet itself is its "
    "distance along the line. Lines without extent have no parts but themselves.",
    ["inputs", "configurations"],
    "every line within the bounds, every pair of vertices, quarter and middle positions, all kinds of lines and coordinates",
    "tests cut a few lines in the middle; cuts at vertices and on the first or last segment take other paths in the code",
    [INC + "geometry/algorithm/substring.hpp"],
    [("cutting lines", INC + "geometry/algorithm/substring.hpp")],
    ["kernel"],
    "all lines over a small set of points, all pairs of positions, compared with the plain polyline; non-trivial: parts with extent",
    {"quick": "4 points of 6 positions (cartesian, 3 kinds of lines), 5 positions (geographic, spherical)", "thorough": "5 points"},
    "Exhaustive within the bounds. By distance without points only for cartesian coordinates. Lines without repeated neighbouring "
    "points; two different positions at the same point, both given as points, are documented to give nothing.")
CHECKS["D01"] = P(
    "Measures agree with each other in every coordinate system, cached or not",
    "Distances are meters on the plane, sphere or ellipsoid, and the length of a line is the sum of its segments' "
    "distances. Azimuths are clockwise from north, within -180 to 180 degrees; turns are their differences, within the same range, "
    "left positive, and add up over a line. A box around a point or segment with a radius holds everything within this "
    "radius. Caching is invisible: whatever was asked, enabled, disabled or reset before, answers are the same.",
    ["inputs", "histories", "configurations"],
    "every line and every history of questions within the bounds, each coordinate system, also across the antimeridian",
    "tests compute a few distances with caches off; a wrong key or a mixed unit needs a second coordinate system or a history",
    [INC + "geometry/algorithm/distance.hpp", INC + "geometry/algorithm/azimuth.hpp", INC + "geometry/algorithm/length.hpp",
     INC + "geometry/algorithm/direction.hpp", INC + "geometry/algorithm/buffer.hpp", INC + "geometry/cache.hpp"],
    [("measures", INC + "geometry/algorithm/distance.hpp"), ("caches", INC + "geometry/cache.hpp")],
    ["kernel"],
    "all lines over small sets of points against closed formulas; all histories of questions and cache switches; non-trivial: "
    "lines, and questions while a cache is on",
    {"quick": "lines of 5 points, histories of 3 operations, boxes of 10 to 10,000 m at 25 places", "thorough": "lines of 6 points, histories of 4"},
    "Exhaustive within the bounds. One coordinate system per thread at a time (the caches do not distinguish them); distances on the "
    "ellipsoid to 0.01 %, boxes from 10 m radius, up to 80 degrees of latitude, segments up to 1.6 km.", args={"kernel": ["--measures"]})
CHECKS["M01"] = P(
    "Each point of a track gets the candidates that its search asks for",
    "Searching candidates for a track by circles, by nearest roads or both combined gives each point, in order, the positions on "
    "roads that the settings ask for and no others: the closest position of each road within the radius (doubled until roads are "
    "found, within its bounds), of the k nearest roads, or of roads adopted from neighbouring points within the distance. Each candidate "
    "lies on its road, splits it there into its two parts, knows its distance and its point; positions on the same spot are one. "
    "The outcome does not depend on earlier searches of the same searcher.",
    ["inputs", "configurations", "histories"],
    "every track over the positions within the bounds, on each network, every setting within the bounds, fresh or reused searcher",
    "tests search a few points on one map with default settings; joints, ties, one-way roads and adoption interact",
    [INC + "matching/algorithm/candidate_search.hpp", INC + "matching/candidate/candidate.hpp", INC + "matching/candidate/candidate_edge.hpp", NW],
    [("searching candidates", INC + "matching/algorithm/candidate_search.hpp"), ("k nearest edges", NW)],
    ["matching"],
    "all tracks over a set of positions, through the real search on a real network, against a plain computation over all roads; "
    "non-trivial: points with more than one candidate",
    {"quick": "some 60,000 tracks and settings", "thorough": "some 456,000 tracks and settings"},
    "Exhaustive within the bounds, cartesian coordinates, roads that do not meet themselves. Of equally near roads at the limit of k any may "
    "be taken; a position within 0.0001 of another one may be taken for it.", args={"matching": ["--search"]})
CHECKS["M02"] = P(
    "Routes between candidates are the ways that the network allows",
    "The route between two candidates is the part of one road if that leads forward and is allowed, else the rest of the first "
    "road, the best way through the network and the beginning of the last one, connected without gaps, and never longer than the "
    "search bound; if the network has no such way, there is none. Turns within roads and at joints are counted as they are. "
    "The answer is the same whatever was asked before. A policy becomes one route per pair of points in order, the "
    "parts join where they meet, and failed parts are recognisable.",
    ["inputs", "histories", "configurations"],
    "every pair of candidates, every history of questions and every policy within the bounds, on each network and setting",
    "tests route a few pairs on one map with a fresh router; the caches of a router make answers depend on history",
    [INC + "matching/algorithm/route.hpp", INC + "matching/matcher.hpp", INC + "matching/candidate/candidate.hpp", RT],
    [("routing between candidates", INC + "matching/algorithm/route.hpp"), ("join of routes", RT)],
    ["matching"],
    "all pairs, histories and policies through the real router on a real network, against a plain computation on the raw roads; "
    "non-trivial: routes over more than one road",
    {"quick": "all pairs, histories of 2 questions, policies of 3 points", "thorough": "histories of 3 questions, policies of 4 points"},
    "Exhaustive within the bounds, cartesian coordinates, roads that do not overlap or meet themselves. A route found under a "
    "larger search bound may be given later under a smaller one.")
CHECKS["M05"] = P(
    "Matching environments rate candidates as documented and the optimum is found",
    "The environment for reinforcement learning has one state per combination of the last candidates of its state size plus skips, "
    "moves where the chosen action leads, offers what the settings allow, and pays what its formula "
    "says about the routes in between; the same question gives the same answer in any order. Value and policy iteration find "
    "a policy of the best sum. The hidden Markov environment gives emission and transition probabilities by its formula, and the Viterbi "
    "learner finds the most likely sequence of candidates.",
    ["inputs", "histories", "configurations"],
    "every track within the bounds on each network, state sizes 2 and 3, all settings variants, every reachable state and action",
    "tests match a few tracks with default settings; skips, failed routes and ties show only in particular states",
    [INC + "environment/environments/single.hpp", INC + "environment/environments/hmm.hpp", INC + "learning/algorithms/value_iteration.hpp",
     INC + "learning/algorithms/policy_iteration.hpp", INC + "learning/algorithms/viterbi.hpp"],
    [("single environment", INC + "environment/environments/single.hpp"), ("hidden Markov environment", INC + "environment/environments/hmm.hpp")],
    ["matching"],
    "all reachable states of the real environments of all tracks are explored and compared with the formula; the best sum is "
    "found by trying all; non-trivial: states with more than one action",
    {"quick": "tracks of 3 points", "thorough": "tracks of 4 points"},
    "Exhaustive within the bounds, cartesian coordinates. Rewards within rounding; among equally good policies any. The randomised "
    "Q-learning is not covered.", args={"matching": ["--environment"]})
CHECKS["C01"] = P(
    "Comparing routes finds exactly the missed and added parts",
    "Comparing a ground truth with a match splits both, in travel direction, into what is in both, what the match misses and "
    "what it adds: every stretch counts as often as it is travelled, in its direction. The returned lines cover exactly these stretches, their "
    "lengths are the lengths of these stretches, and the fractions are the missed, added and correct length of the ground truth's length. "
    "Points within the adopt distance of each other count as the same, nothing is invented between the lines of a multi line, "
    "and comparing empty with anything counts all of it.",
    ["inputs", "configurations"],
    "every pair of lines and of multi lines within the bounds, in cartesian, geographic and spherical coordinates",
    "tests compare a few lines; repeated, reversed and gapped stretches interact only in particular pairs",
    [INC + "geometry/algorithm/compare.hpp", INC + "geometry/algorithm/compare/comparison.hpp"],
    [("compare", INC + "geometry/algorithm/compare.hpp"), ("result", INC + "geometry/algorithm/compare/comparison.hpp")],
    ["compare"],
    "all walks up to the length bound on small grids as ground truth and as match, compared with the multisets of their directed unit steps; "
    "non-trivial: pairs that share some stretch and differ in another",
    {"quick": "walks of up to 4-5 steps on 4 networks, two-part multi lines, points shifted within the adopt distance",
     "thorough": "one step more"},
    "Exhaustive within the bounds. Lines of a multi line have points; the tolerance for splitting at nearby points (0.1-1 m) is not "
    "claimed beyond equal points.")
CHECKS["C02"] = P(
    "Every comparison pair is compared once, whatever the order of arrival",
    "Ground truths and matches arrive in any order. Every match whose ground truth arrives is compared with it exactly once; at "
    "the end, a ground truth without match is reported as missed in full and a match without ground truth as added in full, "
    "unless non existing ones are ignored. Every compared pair gives one line of the file, in the chosen columns, "
    "and the totals are the sums over the lines.",
    ["histories", "configurations", "schedules"],
    "every order of arrival of ground truths and matches within the bounds, every output setting, one and two threads",
    "tests compare single pairs; lost and doubled pairs depend on the order",
    ["src/library/src/compare/comparator.cpp", INC + "compare/comparator.hpp", "src/library/src/compare/comparator/comparator_forwarder_matches.cpp",
     "src/library/src/compare/comparator/comparator_forwarder_data.cpp"],
    [("pairing", "src/library/src/compare/comparator.cpp"), ("forwarders", "src/library/src/compare/comparator/comparator_forwarder_matches.cpp")],
    ["pairing"],
    "all sequences of distinct arrivals are fed to the real comparator and its forwarders, the file and the printed totals are read back; "
    "non-trivial: sequences with a pair and a single one",
    {"quick": "up to 5 arrivals out of 4 ground truths and 5 matches", "thorough": "up to 6 arrivals"},
    "Exhaustive in the order of arrivals; the threads are the operating system's. Identifiers are distinct.")
CHECKS["T01"] = P(
    "Tags stay exact whichever allocation fails, grows or moves the storage",
    "The tags of a node or an edge are what was first stored for it, in order; merging adds those missing once; "
    "equal tags have one id, different tags different ids. "
    "Copying to another storage, reopening the file read-only and saving to and loading from a stream keep every tag. All of it holds "
    "whichever allocation fails and makes the file grow, and wherever the grown file is mapped. Files of another version or "
    "compiler are refused; finished storages refuse new tags.",
    ["histories", "fault_sequences", "configurations"],
    "every sequence of storing and merging tags within the bounds, with every single allocation of the sequence failing",
    "tests never fill a file; which allocation fails first depends on the data",
    [INC + "io/helper/tag_helper.hpp", INC + "io/memory_mapped/storage/tag_storage.hpp", INC + "io/memory_mapped/storage/base_storage.hpp"],
    [("tag_helper", INC + "io/helper/tag_helper.hpp"), ("tag_storage", INC + "io/memory_mapped/storage/tag_storage.hpp"),
     ("growing files", INC + "io/memory_mapped/storage/base_storage.hpp")],
    ["tags", "tags_moving"],
    "all operation sequences up to the depth run on the real storages; in mapped files every allocation fails once in its own run, "
    "and the file is mapped at the same or at a fresh address afterwards; non-trivial: sequences with a failing allocation that was retried",
    {"quick": "up to 4 operations in memory, 3 in files, every failing allocation", "thorough": "one operation more"},
    "Exhaustive in operations and in the failing allocation; one failure per run, files of at least 8 KB. "
    "Boost of this sandbox lacks serialization of its flat map and keeps raw pointers in it, so stand-ins for those two are used.",
    technique="exhaustive fault injection over enumerated operation sequences on the real code")
CHECKS["S01"] = P(
    "A network prepared in files is the network prepared in memory",
    "Importing nodes and edges with their tags, simplifying, cleaning, compressing and indexing gives the same network (nodes, "
    "edges, geometry, lengths, tags, node and segment index) wherever its parts are kept, in memory or in mapped files, whichever "
    "allocation fails and makes a file grow, whatever size the files start with and wherever the grown file is mapped. "
    "Closed and opened again, or saved and loaded, it is still the same; temporary files are gone; files of another version or compiler are refused.",
    ["fault_sequences", "configurations", "inputs"],
    "every small network within the bounds, with every single allocation of its preparation failing; all file sizes of a range",
    "tests never fill a file; which allocation fails first depends on the data and the initial size",
    [INC + "io/helper/graph_helper.hpp", INC + "io/helper/index_helper.hpp", INC + "io/helper/index_build_helper.hpp",
     INC + "io/memory_mapped/storage/graph_storage.hpp", INC + "io/memory_mapped/storage/index_storage.hpp",
     INC + "io/memory_mapped/storage/index_build_storage.hpp", INC + "io/memory_mapped/storage/base_storage.hpp",
     INC + "io/memory_mapped/utils.hpp"],
    [("graph_helper", INC + "io/helper/graph_helper.hpp"), ("index_helper", INC + "io/helper/index_helper.hpp"),
     ("growing files", INC + "io/memory_mapped/storage/base_storage.hpp")],
    ["storage", "storage_moving"],
    "all small networks are prepared by the real pipeline in files, each allocation failing in a run of its own, and compared with the "
    "pipeline in memory, before and after closing and opening again; files are mapped at the same or at a fresh address; "
    "non-trivial: runs in which an allocation failed and was retried",
    {"quick": "all networks of up to 5 of 10 edges on 4 nodes, with every failing allocation up to 4 edges; 48 file sizes times 9 larger networks",
     "thorough": "all subsets of the 10 edges, every failing allocation up to 5 edges; 384 file sizes"},
    "Exhaustive in networks and in the failing allocation; one failure per run, files of at least 8 KB. "
    "Removing unconnected parts and duplicates does not grow files and is run without failures.",
    technique="exhaustive fault injection over enumerated networks on the real code")
CHECKS["O01"] = P(
    "OpenStreetMap roads become exactly the edges they mean",
    "Importing OpenStreetMap data gives one edge per direction for every two consecutive nodes of every kept way, with the id and tags of the way "
    "and the positions of the nodes. A way is kept if one of its tags matches the query and none is rejected by the filter; rules are tried in "
    "their order, the first match decides, else the default. A oneway keeps only its direction, a reversed oneway only the opposing one. "
    "Vertices are the known nodes of kept ways with their tags, once each, whatever their order in the file; missing or deleted nodes only "
    "drop the segments that need them; deleted ways are ignored; several files add up. Specifications are accepted exactly in the documented form. "
    "All of this holds whether data is kept in memory or in files, whichever allocation fails and makes a file grow.",
    ["inputs", "fault_sequences", "configurations"],
    "all small data sets of nodes and ways within the bounds, all short rule lists, every single failing allocation",
    "the tests import no data at all; directions, order of nodes, missing nodes and rule order only show in specific combinations",
    [INC + "io/network/osm_handler.hpp", INC + "io/network/osm_importer.hpp", INC + "io/network/osm_car_importer.hpp",
     INC + "io/network/osm_manual_importer.hpp", INC + "io/network/osm_pattern.hpp", INC + "io/helper/osm_handler_helper.hpp",
     INC + "io/memory_mapped/storage/osm_handler_storage.hpp"],
    [("osm_handler", INC + "io/network/osm_handler.hpp"), ("osm_handler_helper", INC + "io/helper/osm_handler_helper.hpp"),
     ("rules", INC + "io/network/osm_manual_importer.hpp")],
    ["osm", "osm_files"],
    "the real importers and handler read every data set; the resulting graph is compared with the meaning of the data, computed independently; "
    "non-trivial: data sets from which something is imported, runs with a failed allocation, specifications that are accepted",
    {"quick": "one way of up to 4 references to 3 nodes and a missing one, all subsets and orders of the nodes, 22 kinds of tags; two ways; "
              "deleted and repeated objects; two files; files in three formats; rule lists of up to 2 of 12 rules in four places; all "
              "specifications of up to 7 tokens; in files: every failing allocation",
     "thorough": "one way of up to 5 references, rule lists of up to 3 rules, specifications of up to 8 tokens"},
    "Exhaustive within the bounds. Not judged: edges from a node to itself, ways that come before their nodes, nodes without location, values with separators.")
CHECKS["X01"] = P(
    "An exported OpenStreetMap file imported again is the same network",
    "Exporting a network to OpenStreetMap data and importing that gives the same pieces of road in the same directions with the same tags, "
    "and the same tags at the nodes, whatever spatial reference system the network was imported from and transformed to: positions come back to "
    "WGS 84 up to its seven digits. Two opposing edges share a way only if it means both; ids and keys are unique in the file.",
    ["inputs", "configurations"],
    "all small networks within the bounds, for every combination of base and transformed spatial reference systems of a list, and all pairs of kinds of tags",
    "no test exports; mixed directions and tags or transformed networks only show in specific combinations",
    [INC + "io/network/osm_exporter.hpp", INC + "geometry/algorithm/reverse.hpp", INC + "geometry/algorithm/reproject.hpp", "src/library/src/geometry/srs.cpp"],
    [("osm_exporter", INC + "io/network/osm_exporter.hpp"), ("next transformation", "src/library/src/geometry/srs.cpp")],
    ["osm_export"],
    "networks are exported and imported again by the real code, and compared with the network that was given; non-trivial: more than one piece of road",
    {"quick": "all subsets of 10 edges on 3 nodes in WGS 84, up to 2 edges in 10 other pairs of reference systems; all pairs of 22 kinds of tags on opposing "
              "edges; imported and simplified networks of two ways of up to 3 nodes",
     "thorough": "up to 5 edges in the other pairs of reference systems; first way of up to 4 nodes"},
    "Exhaustive within the bounds; positions of nodes are distinct after rounding.")
CHECKS["N04"] = P(
    "Every network format becomes exactly the network its files describe",
    "A network in arc node, Melbourne, Seattle or GISCUP files becomes exactly the nodes and directed edges the files "
    "describe: identifiers, direction, two-way roads as two edges, the position of every node and every point of a line, "
    "in every supported reference system of the data and of the network, so that each edge starts and ends at its nodes, "
    "also when several sets of files are read one after the other.",
    ["inputs", "configurations"],
    "every small network in each format, every pair of file sets, every kind of source and target reference system",
    "tests import one small network in its own reference system; positions and lines take separate paths per format",
    [INC + "io/network/" + f for f in ("arc_node_importer.hpp", "melbourne_importer.hpp", "seattle_importer.hpp", "giscup_importer.hpp")]
    + [INC + "geometry/algorithm/reproject.hpp"],
    [("importers", INC + "io/network/giscup_importer.hpp"), ("reprojection", INC + "geometry/algorithm/reproject.hpp")],
    ["formats"],
    "all small networks written in each format, read by the real importers into the real graph and compared with what the "
    "files mean, transformed by proj strings; 13 pairs of reference systems; non-trivial: at least one edge",
    {"quick": "up to 3 nodes, 2 edges of up to 4 points; 256 pairs of file sets", "thorough": "3 edges"},
    "Exhaustive within the bounds. Identifiers are distinct within the sets of files read together, except that arc node "
    "files, which have none, number their lines again in each set.")
CHECKS["P01"] = P(
    "Tracks read from any source are exactly the tracks it describes",
    "Reading tracks gives every selected track of the source once, with its id and exactly its points, in order of time where "
    "there are times and in order of appearance otherwise or at equal times, in the asked reference system: from csv files "
    "with any of the supported ways to give ids, times, coordinates or WKT; from standard input; from lists of edges of a "
    "network, joined where the edges connect and with the fewest gaps; from the Seattle ground truth; from gpx files, segment by segment. What cannot be "
    "read is skipped without harm to the rest.",
    ["inputs", "configurations"],
    "every small csv file in every way to describe tracks, every short list of edges, route and input",
    "tests import one file; ids, times, grouping, selectors and kinds of geometry combine freely",
    [INC + "io/track/" + f for f in ("csv_track_importer.hpp", "gpx_track_importer.hpp", "edges_list_importer.hpp", "input_importer.hpp", "seattle_ground_truth_importer.hpp")]
    + ["src/library/src/io/csv_importer.cpp", "src/library/src/io/importer.cpp"],
    [("csv", INC + "io/track/csv_track_importer.hpp"), ("lists of edges", INC + "io/track/edges_list_importer.hpp"),
     ("input", INC + "io/track/input_importer.hpp")],
    ["imports"],
    "all small sources are written, read by the real importers and compared with what they describe (for lists of edges: all "
    "choices of edges, the fewest gaps); non-trivial: at least one track",
    {"quick": "csv of up to 3 rows x 960 configurations, two files, tracks of up to 40 points, lists of 5 edges, 4 input lines",
     "thorough": "csv of up to 4 rows, tracks of up to 70 points, lists of 7 edges, 5 input lines"},
    "Exhaustive within the bounds. The csv and gpx readers are stand-ins (the libraries they belong to are not installed). "
    "Not judged: rows with and without a time in one track, csv files that break the "
    "grouping they are declared to have.")
CHECKS["B01"] = P(
    "Prepared networks are the ones described, however and wherever they are stored",
    "Preparing a network by the command line reads the files in the named format, simplifies and cleans as told, in the named reference "
    "system, and leaves exactly the graph, tags, index and asked exports in the output, whatever was there before. Opening it for "
    "matching gives this network, its tags and its index, any number of times, for every combination of what is kept in "
    "mapped files or in memory, during preparation and in the result.",
    ["inputs", "configurations", "histories"],
    "all 256 combinations of storage, all networks of seven roads in all ways to simplify and clean them, all formats and exports, all pairs of runs into one place",
    "tests never run the program; which of its hundreds of template combinations runs depends on the options, and a mistake in one shows only there",
    ["src/app/include/app/prepare.hpp", "src/app/include/app/network.hpp", "src/app/src/app/network.cpp", "src/app/src/app/prepare.cpp",
     "src/app/include/app/match.hpp"],
    [("preparation", "src/app/include/app/prepare.hpp"), ("choice of storage", "src/app/src/app/network.cpp")],
    ["program"],
    "the program's own functions prepare every case from a command line and open it again; compared with the plain steps of the library in memory; "
    "non-trivial: networks that are not empty",
    {"quick": "256 storages x 4 reference systems x 3 networks and x 4 formats, 128 networks x 24 ways x 2-3 storages, 225 pairs of runs",
     "thorough": "also small files that grow, all networks in every format and reference system"},
    "Exhaustive within the bounds. The plain steps themselves are judged by N02, N03, N04, O01, S01 and X01.")
CHECKS["B02"] = P(
    "Comparing by the program pairs the right sides, each read and projected as told",
    "Comparing by the command line reads the ground truths with the options for the comparison and the matches with the options for "
    "matches (files, format, fields, selectors, reference systems), and writes one row for every pair with the comparison "
    "of the two lines under the given tolerances, in the asked columns and file. Ground truths without match are compared with an "
    "empty match, unless non existing ones are ignored; matches without ground truth are left out.",
    ["inputs", "configurations"],
    "all pairs of formats and reference systems of the two sides, all sets of tracks, all combinations of tolerances and selectors",
    "tests never run the program; mixing the options of the two sides shows only where they differ",
    ["src/app/src/app/compare.cpp", "src/app/src/app/settings.cpp", INC + "compare/comparator.hpp", "src/library/src/compare/comparator.cpp",
     INC + "compare/comparator/comparator_forwarder_data.hpp"],
    [("reading both sides", "src/app/src/app/compare.cpp"), ("settings", "src/app/src/app/settings.cpp")],
    ["comparing"],
    "the program's own function compares files written for every case from a command line; the rows are those of the library's line comparison "
    "(which C01 judges) of the lines built without the program; non-trivial: pairs of a ground truth and its match",
    {"quick": "16 pairs of formats x 12 of reference systems x 4 ways to give files, 1,024 sets of tracks x 2, 729 tolerances, 2,048 selections",
     "thorough": "all of these in all formats"},
    "Exhaustive within the bounds. The gpx and csv readers are stand-ins. Identifiers are distinct.")
CHECKS["E01"] = P(
    "Matching writes one drivable and consistent result per track",
    "For every given track exactly one row is written, under the asked columns, with the track as it was given, right lengths and the mark "
    "that it was finished. Each line of the match can be driven: along roads in their direction, changing at joints, turning within a "
    "road only where allowed. The written candidates split their roads at the projection, at most one per point is chosen, and the match "
    "is exactly the way through the chosen ones, with gaps only where none can be driven. Roads and numbers of roads are those below "
    "the match. A track of several lines is matched like its lines. Order of the tracks, number of threads and earlier tracks change nothing.",
    ["inputs", "configurations", "histories"],
    "every network of three joints with each pair unconnected, one-way or two-way in two shapes, plus a separate road; every track of up to 3 points "
    "on a set of places, tracks of several and empty lines; nine settings over all models and searches; one and three threads",
    "tests match single tracks through parts of the pipeline; a whole run has many tracks sharing caches, threads, writers and settings",
    [INC + "matching/matcher.hpp", INC + "matching/matcher/match_result.hpp", INC + "matching/algorithm/route.hpp",
     INC + "io/results/match/csv_match_exporter.hpp", INC + "io/results/match/csv_candidates_exporter.hpp", INC + "util/coordinator.hpp"],
    [("one task per track, merged result", INC + "matching/matcher.hpp"), ("rows of matches", INC + "io/results/match/csv_match_exporter.hpp"),
     ("rows of candidates", INC + "io/results/match/csv_candidates_exporter.hpp")],
    ["matches"],
    "the real matcher with real threads and writers runs on all tracks of a network at once; the written files are judged by driving on the "
    "plain roads; non-trivial: matches over more than one road",
    {"quick": "128 networks, tracks of up to 3 of 5 places, 36 tracks of two lines", "thorough": "256 networks, 3 of 8 places, 144 tracks of two lines"},
    "Exhaustive over networks, tracks and settings within the bounds; the interleavings of threads are those that happened (F01 and Q02 explore them). "
    "Cartesian coordinates; a stand-in writes the csv. With turns within roads the way is only judged to be drivable (M02 judges the way). "
    "The randomised Q-learning is not covered. Places equal up to rounding may be joined by nothing or by the way around.")
CHECKS["M06"] = P(
    "Running out of time stops a track cleanly",
    "When the time for a track is over, at whatever moment, its row is still written, marked as aborted, with the matches, "
    "candidates and road numbers of the lines finished before and no result for the line that was stopped; candidates of that line are all or none, and none is "
    "chosen. A track that finishes is marked so and is the same as without a limit. The next track has its own time. Without a limit nothing is stopped.",
    ["fault_sequences", "inputs", "configurations"],
    "every single moment at which the matcher looks at the clock as the one where the time is over, for each track, network and setting within the bounds",
    "tests never run out of time; the moment decides in which half-finished state each of the dozen loops is left",
    [INC + "matching/matcher.hpp", INC + "util/time_helper.hpp", "src/library/src/util/time_helper.cpp", INC + "matching/algorithm/candidate_search.hpp",
     INC + "environment/environments/hmm.hpp", INC + "learning/algorithms/value_iteration.hpp"],
    [("time of a track", "src/library/src/util/time_helper.cpp"), ("aborted result", INC + "matching/matcher.hpp")],
    ["matches"],
    "the steady clock is replaced by one that jumps at its n-th reading; every n up to the last reading is run through the real matcher, the files are compared with those of "
    "undisturbed runs; non-trivial: stops after the first line of a track",
    {"quick": "10 networks, 4 sets of tracks", "thorough": "10 networks in two shapes, 436 sets of tracks"},
    "Exhaustive over all readings of the clock. How long the program runs between two readings is not judged. Q-learning is not covered.",
    args={"matches": ["--stop"]})
CHECKS["A01"] = P(
    "Matching, comparing and preparing do exactly what their options say",
    "Every option, from the command line or from the configuration file with the command line taking precedence, reaches the "
    "setting it is documented for with the value given, and no other; options not given have their documented defaults; "
    "dependent settings (memory mapping of parts, search limits, turns within edges, simplification, the file types of tracks, the reference "
    "systems) follow as documented and never override what was given explicitly; contradicting, unknown or missing settings "
    "are refused; exactly one mode is run.",
    ["configurations"],
    "every combination of up to two options with all their values from both sources, and all combinations of options that depend on each other",
    "there are about 180 options; errors need one of them together with another one or with a source of it, and no test looks at the program's options",
    ["src/app/src/app/options.cpp", "src/app/src/app/settings.cpp", "src/library/src/geometry/srs.cpp", "src/app/include/app/options.hpp",
     INC + "matching/settings.hpp", INC + "compare/settings.hpp", INC + "io/csv_settings.hpp"],
    [("options and their corrections", "src/app/src/app/options.cpp"), ("settings", "src/app/src/app/settings.cpp"),
     ("reference systems", "src/library/src/geometry/srs.cpp")],
    ["options"],
    "every configuration is parsed and corrected by the program's own functions and turned into settings; all fields are compared "
    "with a table of the documented options and a model of what depends on what; non-trivial: all",
    {"quick": "112000 configurations: pairs of options, dependent groups completely (memory: 3^10)", "thorough": "also triples of options: 288000 configurations"},
    "Exhaustive within the bounds. Not judged: unknown EPSG codes, files without or with differently written extensions, what is printed.")
CHECKS["W01"] = P(
    "Written tables have exactly the columns asked for, each with its value",
    "The files of matches, candidates, compares and tracks begin with the columns asked for in their order, and every row has one field "
    "for each: the same value the column has when all are asked for, whatever the other columns are and however often it is asked for; an unknown column is "
    "there but empty. There is one row per match, candidate, compare and track, for every settings and special names and empty lines. The tables of "
    "a network have one row for each node and edge with its identifier, position or line, length and tags.",
    ["configurations", "inputs"],
    "every sequence of up to two (three) columns including unknown and repeated ones, for results of several networks and settings; every sequence of tracks; all small networks with tags in all kinds of reference systems",
    "no test writes a file of results; columns are computed only if asked for, so a missing dependency shows for certain sequences only",
    [INC + "io/results/match/csv_match_exporter.hpp", INC + "io/results/match/csv_candidates_exporter.hpp", INC + "io/results/compare/csv_compare_exporter.hpp",
     INC + "io/results/track/csv_track_exporter.hpp", INC + "io/results/csv_results_exporter.hpp", INC + "geometry/network/network_base.hpp",
     INC + "geometry/network/node.hpp", INC + "geometry/network/edge.hpp"],
    [("rows of results", INC + "io/results/csv_results_exporter.hpp"), ("tables of a network", INC + "geometry/network/network_base.hpp")],
    ["matches", "pairing", "osm_export"],
    "the real matcher and comparator write the files for every sequence of columns; they are compared with the rows with all columns, which E01 and C02 judge; "
    "non-trivial: files with rows",
    {"quick": "all sequences of up to 2 columns (of 13 for matches and candidates, 16 for compares), a part of those of 3; up to 3 tracks; networks of up to 10 edges",
     "thorough": "all sequences of up to 3 columns, up to 4 tracks, all settings of E01"},
    "Exhaustive within the bounds. A stand-in writes the csv, so its quoting is not judged.",
    args={"matches": ["--columns"], "pairing": ["--columns"], "osm_export": ["--tables"]})
NOT_APPLICABLE = {}
