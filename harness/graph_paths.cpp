// G03: shortest paths and traversals on every small weighted directed multigraph, on all graph representations,
// against a brute-force reference.
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <stack>
#include <vector>

#include <boost/unordered/unordered_flat_set.hpp>

#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include "graph/algorithm/a_star_shortest_path.hpp"
#include "graph/algorithm/breadth_first_search.hpp"
#include "graph/algorithm/depth_first_search.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"
#include "mc.hpp"

using namespace map_matching_2;

struct Edge { int s, t, w; };

static constexpr int INF = 1 << 28;

struct Case {
    int n;
    std::vector<Edge> es;
    std::vector<std::vector<int>> d;   // all pairs
    std::vector<int> hops;

    void solve() {
        d.assign(n, std::vector<int>(n, INF));
        for (int i = 0; i < n; ++i) { d[i][i] = 0; }
        for (auto &e : es) { d[e.s][e.t] = std::min(d[e.s][e.t], e.w); }
        for (int k = 0; k < n; ++k) { for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) {
            d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
        } } }
        for (auto &r : d) { for (int &x : r) { if (x > INF / 2) { x = INF; } } }
        hops.assign(n, INF);
        hops[0] = 0;
        for (int r = 0; r < n; ++r) { for (auto &e : es) { hops[e.t] = std::min(hops[e.t], hops[e.s] + 1); } }
        for (int &x : hops) { if (x > INF / 2) { x = INF; } }
    }
};

static std::string show(const Case &c) {
    std::ostringstream os;
    os << "n=" << c.n << " start=0 edges=";
    for (auto &e : c.es) { os << e.s << "->" << e.t << ":" << e.w << " "; }
    return os.str();
}

struct Log : graph::visitor {
    std::vector<std::size_t> discovered, examined, finished;
    long edges = 0;
    long stop_at = -1;
    bool stop_on_examine = false;

    template<typename G>
    void discover_vertex(const G &g, const typename G::vertex_descriptor &v) { discovered.push_back(g.vertex_index(v)); }
    template<typename G>
    void examine_vertex(const G &g, const typename G::vertex_descriptor &v) {
        examined.push_back(g.vertex_index(v));
        if (stop_on_examine and stop_at == static_cast<long>(examined.back())) { this->stop(); }
    }
    template<typename G>
    void examine_edge(const G &g, const typename G::edge_descriptor &e) { ++edges; }
    template<typename G>
    void finish_vertex(const G &g, const typename G::vertex_descriptor &v) {
        finished.push_back(g.vertex_index(v));
        if (not stop_on_examine and stop_at == static_cast<long>(finished.back())) { this->stop(); }
    }
};

template<typename Graph>
void check(const Case &c, const Graph &g, const std::vector<typename Graph::vertex_descriptor> &vs, const char *rep) {
    using VD = typename Graph::vertex_descriptor;
    using Prio = graph::priority_type<double, VD>;
    auto weight = [](const int &w) { return static_cast<double>(w); };
    const auto &d = c.d[0];
    int reach = 0;
    for (int i = 0; i < c.n; ++i) { reach += d[i] < INF; }

    auto verify_tree = [&](auto &pred, auto &dist, bool full, const char *what) {
        for (auto &[v, x] : dist) {
            mc::require(v < static_cast<std::size_t>(c.n), rep, "/", what, ": distance of a vertex that does not exist");
            mc::require(pred.contains(v), rep, "/", what, ": no predecessor of ", v);
            mc::require(d[v] < INF, rep, "/", what, ": distance of unreachable vertex ", v);
            mc::require(x >= d[v], rep, "/", what, ": distance of ", v, " smaller than possible: ", x);
            if (v != 0) {
                auto p = pred.at(v);
                int best = INF;
                for (auto &e : c.es) { if (e.s == static_cast<int>(p) and e.t == static_cast<int>(v)) { best = std::min(best, e.w); } }
                mc::require(best < INF, rep, "/", what, ": predecessor ", p, " of ", v, " has no edge to it");
                mc::require(dist.at(p) + best <= x, rep, "/", what, ": predecessor chain of ", v, " is longer than its distance");
            } else {
                mc::require(pred.at(v) == 0 and x == 0, rep, "/", what, ": start is not its own root");
            }
        }
        if (full) {
            for (int v = 0; v < c.n; ++v) {
                mc::require_eq(dist.contains(v), d[v] < INF, rep, "/", what, ": reachability of ", v);
                if (d[v] < INF) { mc::require_eq(dist.at(v), d[v], rep, "/", what, ": shortest distance of ", v); }
            }
        }
    };

    {   // Dijkstra, complete
        graph::predecessors_type pred;
        graph::distances_type<double> dist;
        graph::colors_type colors;
        graph::priority_queue_type<Prio> queue;
        Log log;
        graph::dijkstra_shortest_path(g, vs[0], pred, dist, colors, queue, log, weight);
        verify_tree(pred, dist, true, "dijkstra");
        std::set<std::size_t> fin(log.finished.begin(), log.finished.end());
        mc::require_eq(static_cast<int>(fin.size()), reach, rep, "/dijkstra: finished vertices");
        mc::require(queue.empty(), "queue not drained");
        double last = 0;
        std::set<std::size_t> first;
        for (auto v : log.finished) {
            if (first.insert(v).second) {
                mc::require(d[v] >= last, rep, "/dijkstra: vertices not settled by distance");
                last = d[v];
            }
        }
    }
    // stop at each goal
    for (int goal = 0; goal < c.n; ++goal) {
        graph::predecessors_type pred;
        graph::distances_type<double> dist;
        graph::colors_type colors;
        graph::priority_queue_type<Prio> queue;
        Log log;
        log.stop_at = goal;
        log.stop_on_examine = goal % 2;
        graph::dijkstra_shortest_path(g, vs[0], pred, dist, colors, queue, log, weight);
        mc::require_eq(dist.contains(goal), d[goal] < INF, rep, "/dijkstra with stop: goal reached");
        if (d[goal] < INF) {
            mc::require_eq(dist.at(goal), d[goal], rep, "/dijkstra with stop: distance of goal ", goal);
            int count = 0;
            for (auto v : log.finished) { count += static_cast<int>(v) == goal; }
            mc::require_eq(count, 1, rep, "/dijkstra went on after the visitor stopped it at ", goal);
            mc::require_eq(static_cast<int>(log.finished.back()), goal, rep, "/dijkstra last finished vertex");
        }
        verify_tree(pred, dist, d[goal] >= INF, "dijkstra-stop");
        // A* with consistent heuristics of increasing quality
        for (int q = 0; q <= 2; ++q) {
            auto heur = [&](const VD &v, const VD &) -> double {
                int x = c.d[g.vertex_index(v)][goal];
                if (q == 0) { return 0.0; }
                if (x >= INF) { return 1e6; }
                return q == 1 ? x * 0.5 : x;
            };
            for (bool stop : {true, false}) {
                graph::predecessors_type p;
                graph::distances_type<double> ds;
                graph::colors_type cs;
                graph::priority_queue_type<Prio> qq;
                Log l;
                if (stop) { l.stop_at = goal; }
                graph::a_star_shortest_path(g, vs[0], vs[goal], p, ds, cs, qq, l, weight, heur);
                mc::require_eq(ds.contains(goal), d[goal] < INF, rep, "/a* reaches goal ", goal);
                if (d[goal] < INF) { mc::require_eq(ds.at(goal), d[goal], rep, "/a* distance of goal ", goal, " heuristic ", q); }
                verify_tree(p, ds, not stop and q == 0, "a*");
            }
        }
    }
    // traversals
    {
        boost::unordered_flat_set<std::size_t> visited;
        graph::queue_type<VD> queue;
        Log log;
        graph::breadth_first_search(g, vs[0], visited, queue, log);
        mc::require_eq(static_cast<int>(visited.size()), reach, rep, "/bfs visited");
        mc::require_eq(log.examined.size(), visited.size(), rep, "/bfs examined");
        mc::require_eq(log.discovered.size(), visited.size(), rep, "/bfs discovered");
        int last = 0;
        std::set<std::size_t> once;
        for (auto v : log.examined) {
            mc::require(once.insert(v).second, rep, "/bfs examined ", v, " twice");
            mc::require(c.hops[v] < INF and c.hops[v] >= last, rep, "/bfs order is not by hops at ", v);
            last = c.hops[v];
        }
        long want = 0;
        for (auto &e : c.es) { want += d[e.s] < INF; }
        mc::require_eq(log.edges, want, rep, "/bfs examined edges");
    }
    {
        boost::unordered_flat_set<std::size_t> visited;
        std::stack<VD> stack;
        Log log;
        graph::depth_first_search(g, vs[0], visited, stack, log);
        mc::require_eq(static_cast<int>(visited.size()), reach, rep, "/dfs visited");
        std::set<std::size_t> once;
        for (auto v : log.examined) {
            mc::require(once.insert(v).second, rep, "/dfs examined ", v, " twice");
            mc::require(d[v] < INF, rep, "/dfs reached unreachable ", v);
        }
        mc::require_eq(static_cast<int>(once.size()), reach, rep, "/dfs examined");
        long want = 0;
        for (auto &e : c.es) { want += d[e.s] < INF; }
        mc::require_eq(log.edges, want, rep, "/dfs examined edges");
    }
    for (int goal = 0; goal < c.n; ++goal) {
        boost::unordered_flat_set<std::size_t> vb, vd;
        graph::queue_type<VD> queue;
        std::stack<VD> stack;
        Log b, e;
        b.stop_at = e.stop_at = goal;
        graph::breadth_first_search(g, vs[0], vb, queue, b);
        graph::depth_first_search(g, vs[0], vd, stack, e);
        for (auto *l : {&b, &e}) {
            bool found = not l->finished.empty() and static_cast<int>(l->finished.back()) == goal;
            mc::require_eq(found, d[goal] < INF, rep, "/search stopped at goal ", goal);
        }
    }
    mc::transition(2 + c.n * 9);
}

static void one(Case &c) {
    c.solve();
    using Csr = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, int, int>;
    auto make = [&]<typename G>(const char *name, std::type_identity<G>) {
        G g;
        std::vector<typename G::vertex_descriptor> vs;
        for (int i = 0; i < c.n; ++i) { vs.push_back(g.add_vertex(i)); }
        for (auto &e : c.es) { g.add_edge(vs[e.s], vs[e.t], e.w); }
        check(c, g, vs, name);
        Csr csr;
        csr.from_adjacency_list(g);
        std::vector<std::size_t> cv(c.n);
        for (int i = 0; i < c.n; ++i) { cv[i] = i; }
        check(c, csr, cv, "csr");
    };
    make("list", std::type_identity<graph::adjacency_list<std::list, std::list, graph::directional, int, int, std::list>>{});
    if (mc::g.thorough) {
        make("vector", std::type_identity<graph::adjacency_list<std::vector, std::vector, graph::bidirectional, int, int, std::vector>>{});
    }
    mc::u64 h = 3;
    for (int v = 0; v < c.n; ++v) { h = mc::hcat(h, c.d[0][v]); }
    mc::outcome(h);
    mc::u64 s = c.n;
    for (auto &e : c.es) { s = mc::hcat(s, e.s * 100 + e.t * 10 + e.w); }
    mc::state(s);
    if (c.es.size() > 2) { mc::nontrivial(); }
}

static void enumerate(const char *name, int n, int max_e, const std::vector<int> &weights) {
    mc::suite(name);
    std::vector<Edge> alpha;
    for (int w : weights) { for (int s = 0; s < n; ++s) { for (int t = 0; t < n; ++t) { alpha.push_back({s, t, w}); } } }
    for (int k = 0; k <= max_e; ++k) {
        mc::product(std::vector<int>(k, alpha.size()), [&](const std::vector<int> &v) {
            // only the relative order of the edges of one source vertex matters: keep sources sorted
            for (int i = 1; i < k; ++i) { if (alpha[v[i]].s < alpha[v[i - 1]].s) { return; } }
            if (not mc::mine()) { return; }
            Case c;
            c.n = n;
            for (int i : v) { c.es.push_back(alpha[i]); }
            mc::exec([&] { return show(c); }, [&] { one(c); });
        });
    }
}

// Larger graphs, each whole and without each single edge: rings with chords, grids, and long chains with many parallel edges and loops.
static void large(const char *name, const std::vector<int> &sizes) {
    mc::suite(name);
    for (int n : sizes) { for (int kind = 0; kind < 4; ++kind) { for (int weights = 0; weights < 4; ++weights) {
        std::vector<Edge> es;
        auto add = [&](int s, int t) {
            const int k = static_cast<int>(es.size());
            es.push_back({s, t, weights == 0 ? 1 : weights == 1 ? k * 7 % 5 : weights == 2 ? (k * k + 3) % 11 + 1 : 100 - k});
        };
        for (int i = 0; i < n; ++i) {
            if (kind == 0) { add(i, (i + 1) % n); add(i, (i * 3 + 2) % n); add((i + 5) % n, i); }
            if (kind == 1) { if (i % 4 != 3 and i + 1 < n) { add(i, i + 1); add(i + 1, i); } if (i + 4 < n) { add(i, i + 4); add(i + 4, i); } }
            if (kind == 2 and i + 1 < n) { add(i, i + 1); add(i, i + 1); add(i, i); if (i % 3 == 0) { add(i + 1, i); } }
            if (kind == 3) { for (int j = 0; j < i; ++j) { if ((i + j) % 3) { add(j, i); } else { add(i, j); } } }
        }
        for (int without = -1; without < static_cast<int>(es.size()); ++without) {
            if (not mc::mine()) { continue; }
            Case c;
            c.n = n;
            c.es = es;
            for (auto &e : c.es) { if (e.w <= 0) { e.w = 0; } }
            if (without >= 0) { c.es.erase(c.es.begin() + without); }
            mc::exec([&] { return show(c); }, [&] { one(c); });
        }
    } } }
}

int main(int argc, char **argv) {
    return mc::main_(argc, argv, [] {
        large("large", mc::g.thorough ? std::vector<int>{9, 18, 30, 45} : std::vector<int>{9, 18});
        if (not mc::g.thorough) {
            enumerate("v3", 3, 4, {0, 1, 3});
            enumerate("v4", 4, 4, {1, 3});
            enumerate("v5", 5, 4, {1});
        } else {
            enumerate("v3", 3, 5, {0, 1, 3});
            enumerate("v4", 4, 5, {1, 3});
            enumerate("v5", 5, 4, {1, 3});
            enumerate("v4-long", 4, 6, {1});
        }
    });
}
