// N01/I01: searches and spatial queries of a prepared network, on every small road network.
#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "geometry/network/traits/network.hpp"
#include "geometry/algorithm/distance.hpp"

#include "net_common.hpp"
#include "net_build.hpp"

using namespace map_matching_2;

using Import = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using GH = MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using IH = MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES);
using Net = MM2_NETWORK(GH, IH);
using point_type = Net::point_type;
using segment_type = Net::segment_type;

// distances between these are integers: exact arithmetic
static const std::vector<Pt> LATTICE{{0, 0}, {3, 0}, {3, 4}, {0, 4}, {6, 4}, {0, 0}};

using GeoImport = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using GeoGH = MM2_GRAPH_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using GeoIH = MM2_INDEX_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES);
using GeoNet = MM2_NETWORK(GeoGH, GeoIH);

template<typename Net, typename Import>
static Net make_as(const RNet &r) {
    Import imp;
    build_network(imp, r);
    Net net;
    net.graph_helper().from_adjacency_list(imp.graph_helper(), imp.tag_helper());
    return net;
}
static Net make(const RNet &r) { return make_as<Net, Import>(r); }

static double geo_len(const std::vector<Pt> &l) {
    using P = GeoNet::point_type;
    double s = 0;
    for (std::size_t i = 1; i < l.size(); ++i) { s += boost::geometry::distance(P{l[i - 1].x, l[i - 1].y}, P{l[i].x, l[i].y}); }
    return s;
}
template<typename N>
static double len_of(const std::vector<Pt> &l) { if constexpr (std::is_same_v<N, GeoNet>) { return geo_len(l); } else { return line_len(l); } }

template<typename Net>
struct Buffers {
    graph::predecessors_type p;
    graph::distances_type<typename Net::length_type> d;
    graph::colors_type c;
    graph::priority_queue_type<graph::priority_type<typename Net::length_type, typename Net::vertex_descriptor>> q;
};

struct Bound { double max, factor; };
static const std::vector<Bound> BOUNDS{{0, -1}, {0, 1}, {3, 1}, {4, 1}, {5, 1}, {7, 1}, {8, 1}, {9, 1}, {10, 1}, {12, 1}, {14, 0.5}, {4, 2}, {1, 10}, {3.9999, 1}};

// limits in metres, none of them within a millimetre of a length that occurs
static const std::vector<Bound> METRES{{0, -1}, {0, 1}, {9, 1}, {15, 1}, {26, 1}, {38, 1}, {61, 1}, {95, 1}, {20, 10}, {499, 1}, {1234, 1}};

// the length of a path of vertices over the shortest parallel edges, -1 if it is not a path
template<typename Net>
static double path_length(const RNet &r, const std::list<std::size_t> &p) {
    double s = 0;
    for (auto a = p.begin(); std::next(a) != p.end(); ++a) {
        double best = -1;
        for (auto &e : r.edges) {
            if (e.s == static_cast<int>(*a) and e.t == static_cast<int>(*std::next(a))) {
                const double l = len_of<Net>(e.line);
                if (best < 0 or l < best) { best = l; }
            }
        }
        if (best < 0) { return -1; }
        s += best;
    }
    return s;
}

template<typename Net>
static void check_route(const Net &net, const RNet &r, const std::list<std::size_t> &p, double want) {
    const auto route = net.extract_route(p);
    if (p.empty()) { mc::require(route.is_invalid(), "no path must give an invalid route"); return; }
    mc::require(not route.is_invalid(), "a path gives a valid route");
    if (p.size() == 1) { mc::require(route.rich_lines().empty(), "staying gives an empty route"); return; }
    std::vector<std::vector<Pt>> lines;
    for (auto &v : route.rich_lines()) {
        std::visit([&](auto &&ref) {
            std::vector<Pt> l;
            for (auto &q : ref.get().line()) { l.push_back({q.template get<0>(), q.template get<1>()}); }
            lines.push_back(std::move(l));
        }, v);
    }
    mc::require_eq(lines.size(), p.size() - 1, "number of lines of the extracted route");
    double sum = 0;
    auto a = p.begin();
    for (auto &l : lines) {
        bool any = false;
        for (auto &e : r.edges) { any |= e.s == static_cast<int>(*a) and e.t == static_cast<int>(*std::next(a)) and e.line == l; }
        mc::require(any, "the extracted route uses geometry that is no road from ", *a, " to ", *std::next(a));
        sum += len_of<Net>(l);
        ++a;
    }
    mc::require_close(sum, want, "length of the extracted route over its lines");
    if (want > 0) { mc::require_close(route.length(), want, "length() of the extracted route"); }
    else { mc::require(not route.has_length(), "a route of no extent has no length"); }
}

template<typename Net>
static void check_search(const Net &net, const RNet &r, const std::vector<Bound> &bounds, Buffers<Net> &b, long &found, mc::u64 &h) {
    const int n = static_cast<int>(r.nodes.size());
    std::vector<std::vector<double>> d(n, std::vector<double>(n, 1e18));
    for (int i = 0; i < n; ++i) { d[i][i] = 0; }
    for (auto &e : r.edges) { d[e.s][e.t] = std::min(d[e.s][e.t], len_of<Net>(e.line)); }
    for (int m = 0; m < n; ++m) { for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { d[i][j] = std::min(d[i][j], d[i][m] + d[m][j]); } } }
    std::vector<long> masks;
    if (n <= 6) { for (long m = 1; m < (1L << n); ++m) { masks.push_back(m); } }
    else {
        const long all = (1L << n) - 1;
        masks = {all, all / 3, all - all / 3, all ^ 1, all >> (n / 2), 1 | (1L << (n - 1)), 31, all ^ 31, 1L << (n / 2)};
    }
    for (int s = 0; s < n; ++s) {
        for (auto &bd : bounds) {
            const double limit = bd.factor < 0 ? 1e17 : bd.factor * bd.max;
            auto expect = [&](int g) { return d[s][g] <= limit; };
            for (const long mask : masks) {
                boost::unordered_flat_set<std::size_t> goals;
                for (int g = 0; g < n; ++g) { if (mask & (1L << g)) { goals.emplace(g); } }
                const auto paths = net.dijkstra_shortest_paths(s, goals, bd.max, bd.factor, b.p, b.d, b.c, b.q);
                std::set<std::size_t> got;
                for (auto &p : paths) {
                    mc::require(not p.empty() and static_cast<int>(p.front()) == s, "path does not begin at the start");
                    const int g = static_cast<int>(p.back());
                    mc::require(mask & (1L << g), "path to ", g, " was not asked for");
                    mc::require(got.insert(g).second, "two paths to ", g);
                    mc::require(expect(g), "path from ", s, " to ", g, " found although it is ", d[s][g], " away and the limit is ", limit);
                    const double l = path_length<Net>(r, p);
                    mc::require_close(l, d[s][g], "length of the path from ", s, " to ", g);
                    if ((mask & (mask - 1)) == 0) { check_route(net, r, p, d[s][g]); }
                    found += g != s;
                    h = mc::hcat(h, p.size());
                }
                for (int g = 0; g < n; ++g) {
                    if (mask & (1L << g)) {
                        mc::require(expect(g) == (got.count(g) > 0), "uniform-cost search with limit ", limit, " from ", s, " to ", g, " (true distance ",
                                d[s][g], ", goals ", mask, ") ", got.count(g) ? "found" : "did not find", " it");
                    }
                }
                mc::require(b.p.empty() and b.d.empty() and b.c.empty() and b.q.empty(), "the search left its buffers dirty");
            }
            for (int g = 0; g < n; ++g) {
                const auto p = net.a_star_shortest_paths(s, g, bd.max, bd.factor, b.p, b.d, b.c, b.q);
                mc::require(expect(g) == (not p.empty()), "heuristic search with limit ", limit, " from ", s, " to ", g, " (true distance ",
                        d[s][g], ") returned a path of ", p.size(), " vertices");
                if (not p.empty()) {
                    mc::require(static_cast<int>(p.front()) == s and static_cast<int>(p.back()) == g, "heuristic search: wrong ends");
                    mc::require_close(path_length<Net>(r, p), d[s][g], "heuristic search: length of the path from ", s, " to ", g);
                }
                check_route(net, r, p, d[s][g]);
                mc::require(b.p.empty() and b.d.empty() and b.c.empty() and b.q.empty(), "the search left its buffers dirty");
            }
            mc::transition();
        }
    }
}

static RNet lattice(int v, bool twin) {
    RNet r;
    for (int i = 0; i < v; ++i) { r.nodes.push_back({10ul + i, LATTICE[twin and i == v - 1 ? 5 : i]}); }
    return r;
}

static void search_suite(const std::string &name, int v, int k, bool shapes, bool loops, bool twin) {
    mc::suite(name);
    const auto types = road_types(v, shapes, loops);
    multisets(static_cast<int>(types.size()), k, [&](const std::vector<int> &c) {
        if (not mc::mine()) { return; }
        RNet r = lattice(v, twin);
        for (int i = 0; i < k; ++i) { add_road(r, types[c[i]], 1 + i, true); }
        mc::exec([&] { return r.str(); }, [&] {
            const Net net = make(r);
            Buffers<Net> b;
            long found = 0;
            mc::u64 h = 0;
            check_search(net, r, BOUNDS, b, found, h);
            if (found) { mc::nontrivial(); }
            mc::count("paths found", found);
            mc::state(mc::hstr(r.str()));
            mc::outcome(h);
        });
    });
}

// Every choice of at most one road per ordered pair of nodes, straight or a little longer than that: the shortest path often wins by a
// fraction of a percent only, so that a heuristic that overestimates by that much is seen.
template<typename Net, typename Import>
static void narrow_suite(const std::string &name, const std::vector<Pt> &nodes, double bend, bool both, const std::vector<Bound> &bounds) {
    mc::suite(name);
    const int n = static_cast<int>(nodes.size());
    std::vector<std::pair<int, int>> pairs;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (i < j or (both and i != j)) { pairs.push_back({i, j}); } } }
    long total = 1;
    for (std::size_t i = 0; i < pairs.size(); ++i) { total *= 3; }
    for (long c = 0; c < total; ++c) {
        if (not mc::mine()) { continue; }
        RNet r;
        for (int i = 0; i < n; ++i) { r.nodes.push_back({10ul + i, nodes[i]}); }
        long x = c;
        for (std::size_t i = 0; i < pairs.size(); ++i, x /= 3) {
            const auto [a, b] = pairs[i];
            const Pt p = nodes[a], q = nodes[b];
            if (x % 3 == 1) { r.edges.push_back({1 + i, a, b, {p, q}}); }
            if (x % 3 == 2) {
                double qx = q.x;   // the middle of a road over the antimeridian lies on it
                if (std::abs(qx - p.x) > 180) { qx += qx < p.x ? 360 : -360; }
                double mx = (p.x + qx) / 2;
                if (mx > 180) { mx -= 360; } else if (mx < -180) { mx += 360; }
                const double h = std::hypot(qx - p.x, q.y - p.y) * bend;
                r.edges.push_back({1 + i, a, b, {p, {mx, (p.y + q.y) / 2 + h}, q}});
            }
        }
        mc::exec([&] { return r.str(); }, [&] {
            const Net net = make_as<Net, Import>(r);
            Buffers<Net> b;
            long found = 0;
            mc::u64 h = 0;
            check_search(net, r, bounds, b, found, h);
            if (found) { mc::nontrivial(); }
            mc::count("paths found", found);
            mc::state(mc::hstr(r.str()));
            mc::outcome(h);
        });
    }
}

// Grids of streets, whole and with each single street missing: larger than what is enumerated above, for what only shows in numbers.
static RNet grid(int w, int h, int oneway, int without, bool bent) {
    RNet r;
    for (int y = 0; y < h; ++y) { for (int x = 0; x < w; ++x) { r.nodes.push_back({10ul + y * w + x, {x * 3.0, y * 4.0}}); } }
    int k = 0;
    for (int y = 0; y < h; ++y) {
        for (int x = 0; x < w; ++x) {
            for (int d = 0; d < 2; ++d) {
                const int tx = x + (d == 0), ty = y + (d == 1);
                if (tx >= w or ty >= h) { continue; }
                if (k++ == without) { continue; }
                int dir = 2;
                if (oneway == 1) { dir = 0; }
                if (oneway == 2) { dir = (d == 0 ? y : x) % 2; }
                if (oneway == 3) { dir = (k % 3); }
                add_road(r, {y * w + x, ty * w + tx, dir, bent and k % 4 == 0 ? 1 : 0}, 1 + k % 5, true);
            }
        }
    }
    return r;
}

template<typename F>
static void grids(int w, int h, const F &f) {
    for (int oneway = 0; oneway < 4; ++oneway) {
        for (bool bent : {false, true}) {
            for (int without = -1; without < w * (h - 1) + h * (w - 1); ++without) { if (mc::mine()) { f(grid(w, h, oneway, without, bent)); } }
        }
    }
}

static void grid_suite(const std::string &name, int w, int h) {
    mc::suite(name);
    grids(w, h, [&](const RNet &r) {
        mc::exec([&] { return r.str(); }, [&] {
            const Net net = make(r);
            Buffers<Net> b;
            long found = 0;
            mc::u64 hh = 0;
            check_search(net, r, {{0, -1}, {7, 1}, {10, 2}, {12, 1}}, b, found, hh);
            if (found) { mc::nontrivial(); }
            mc::count("paths found", found);
            mc::state(mc::hstr(r.str()));
            mc::outcome(hh);
        });
    });
}

// --------------------------------------------------------------------------------------------------- spatial queries
static double pt_seg(const Pt &p, const Pt &a, const Pt &b) {
    const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
    double t = l2 > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l2 : 0;
    t = std::min(1.0, std::max(0.0, t));
    return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}
static double cross(const Pt &o, const Pt &a, const Pt &b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
static bool on_seg(const Pt &p, const Pt &a, const Pt &b) {
    return cross(a, b, p) == 0 and std::min(a.x, b.x) <= p.x and p.x <= std::max(a.x, b.x) and std::min(a.y, b.y) <= p.y and p.y <= std::max(a.y, b.y);
}
static bool seg_cross(const Pt &a, const Pt &b, const Pt &c, const Pt &d) {
    auto sg = [](double x) { return (x > 0) - (x < 0); };
    const int o1 = sg(cross(a, b, c)), o2 = sg(cross(a, b, d)), o3 = sg(cross(c, d, a)), o4 = sg(cross(c, d, b));
    if (o1 * o2 < 0 and o3 * o4 < 0) { return true; }
    return on_seg(c, a, b) or on_seg(d, a, b) or on_seg(a, c, d) or on_seg(b, c, d);
}

static void check_index(Net &net, const RNet &r) {
    auto &g = net.graph();
    const std::size_t n = r.nodes.size();
    // contents
    std::multiset<std::tuple<double, double, std::size_t>> want_p, got_p;
    for (std::size_t i = 0; i < n; ++i) { want_p.insert({r.nodes[i].second.x, r.nodes[i].second.y, i}); }
    for (auto &v : net.points_index()) { got_p.insert({v.first.get<0>(), v.first.get<1>(), v.second}); }
    mc::require(want_p == got_p, "the point index does not hold exactly the nodes: ", got_p.size(), " entries");
    struct S { Pt a, b; std::size_t e, i; };
    std::vector<S> segs;
    auto ev = g.edges_view();
    std::map<std::size_t, std::pair<unsigned long, std::vector<Pt>>> eds;
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
        auto &e = ev[it].get();
        std::vector<Pt> l;
        for (auto &p : e.rich_line.line()) { l.push_back({p.template get<0>(), p.template get<1>()}); }
        for (std::size_t i = 0; i + 1 < l.size(); ++i) { segs.push_back({l[i], l[i + 1], it, i}); }
        eds[it] = {e.id, l};
    }
    std::multiset<std::tuple<double, double, double, double, std::size_t, std::size_t>> want_s, got_s;
    for (auto &s : segs) { want_s.insert({s.a.x, s.a.y, s.b.x, s.b.y, s.e, s.i}); }
    auto key = [](const auto &v) {
        return std::tuple{v.first.first.template get<0>(), v.first.first.template get<1>(), v.first.second.template get<0>(),
            v.first.second.template get<1>(), v.second.first, v.second.second};
    };
    for (auto &v : net.segments_index()) { got_s.insert(key(v)); }
    mc::require(want_s == got_s, "the segment index does not hold exactly the road segments: ", got_s.size(), " of ", want_s.size());
    // bounds
    if (n > 0) {
        double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
        for (auto &v : r.nodes) { x0 = std::min(x0, v.second.x); x1 = std::max(x1, v.second.x); y0 = std::min(y0, v.second.y); y1 = std::max(y1, v.second.y); }
        const auto b = net.bounds();
        mc::require(b.min_corner().get<0>() == x0 and b.max_corner().get<0>() == x1 and b.min_corner().get<1>() == y0 and b.max_corner().get<1>() == y1,
                "bounds of the network");
    }
    // ids
    for (unsigned long id = 9; id < 16; ++id) {
        std::set<std::size_t> want, got;
        for (std::size_t i = 0; i < n; ++i) { if (r.nodes[i].first == id) { want.insert(i); } }
        for (auto v : net.find_node(id)) { got.insert(v); }
        mc::require(want == got, "find_node ", id);
    }
    for (unsigned long id = 0; id < 6; ++id) {
        std::multiset<std::vector<Pt>> want, got;
        for (auto &e : r.edges) { if (e.id == id) { want.insert(e.line); } }
        for (auto e : net.find_edge(id)) { got.insert(eds.at(e).second); }
        mc::require(want == got, "find_edge ", id);
    }
    double total = 0;
    for (auto &e : r.edges) { total += line_len(e.line); }
    mc::require_close(net.length(), total, "length of the network");
    // tags survive the conversion
    for (auto &e : r.edges) {
        std::set<std::string> t;
        for (auto x : net.tag_helper().edge_tags(e.id)) { auto p = net.tag_helper().tag(x); t.insert(p.first + "=" + p.second); }
        mc::require((t == std::set<std::string>{"shared=yes", "way=" + std::to_string(e.id)}), "tags of edge ", e.id, " after the conversion");
    }
    // queries on a grid of points
    for (int gx = -1; gx <= 8; ++gx) {
        for (int gy = -1; gy <= 8; ++gy) {
            const Pt p{gx * 0.75, gy * 0.75 + (gx % 2 ? 0 : 0.25)};
            const point_type pt{p.x, p.y};
            const double rr = 1.3;
            const auto fit = boost::geometry::index::satisfies([&](const auto &v) {
                return geometry::distance(v.first, pt) <= rr;
            });
            std::set<std::size_t> want, got;
            for (auto &s : segs) { if (pt_seg(p, s.a, s.b) <= rr) { want.insert(s.e); } }
            for (auto e : net.query_segments_unique(fit)) { got.insert(e); }
            mc::require(want == got, "edges within ", rr, " of ", p.x, ",", p.y, ": ", got.size(), " instead of ", want.size());
            if (n > 0) {
                const auto near = net.query_points(boost::geometry::index::nearest(pt, 2));
                std::vector<double> ds, dn;
                for (auto &v : r.nodes) { ds.push_back(seg_len(v.second, p)); }
                for (auto &v : near) { dn.push_back(std::hypot(v.first.get<0>() - p.x, v.first.get<1>() - p.y)); }
                std::sort(ds.begin(), ds.end());
                std::sort(dn.begin(), dn.end());
                ds.resize(std::min<std::size_t>(2, ds.size()));
                mc::require(ds.size() == dn.size(), "number of nearest nodes");
                for (std::size_t i = 0; i < ds.size(); ++i) { mc::require_close(dn[i], ds[i], "nearest nodes of ", p.x, ",", p.y); }
            }
            if (not segs.empty()) {
                const auto near = net.query_segments(boost::geometry::index::nearest(pt, 1));
                double best = 1e18;
                for (auto &s : segs) { best = std::min(best, pt_seg(p, s.a, s.b)); }
                mc::require(near.size() == 1, "one nearest segment");
                const auto k = key(near[0]);
                mc::require_close(pt_seg(p, {std::get<0>(k), std::get<1>(k)}, {std::get<2>(k), std::get<3>(k)}), best, "nearest segment of ", p.x, ",", p.y);
            }
        }
    }
    // membership of points
    std::set<Pt> probes{{0.1, 0.2}, {5, 5}};
    for (auto &v : r.nodes) { probes.insert(v.second); }
    for (auto &s : segs) { probes.insert(s.a); probes.insert(s.b); probes.insert({(s.a.x + s.b.x) / 2, (s.a.y + s.b.y) / 2}); }
    for (auto &p : probes) {
        bool node = false, end = false, inner = false;
        for (auto &v : r.nodes) { node |= v.second == p; }
        for (auto &s : segs) {
            const bool e = s.a == p or s.b == p;
            end |= e;
            inner |= not e and on_seg(p, s.a, s.b);
        }
        const auto a = net.point_in_nodes(point_type{p.x, p.y});
        mc::require_eq(a.first, node, "point_in_nodes(", p.x, ",", p.y, ")");
        if (a.first) { mc::require(r.nodes[a.second].second == p, "point_in_nodes returned another node"); }
        const auto b = net.point_in_edges(point_type{p.x, p.y});
        if (not end) { mc::require(not b.first, "point_in_edges(", p.x, ",", p.y, ") found an edge point that does not exist"); }
        if (end and not inner) { mc::require(b.first, "point_in_edges(", p.x, ",", p.y, ") missed the edge point"); }
        if (b.first) {
            const auto &l = eds.at(b.second.first).second;
            mc::require(l.at(b.second.second) == p or l.at(b.second.second + 1) == p, "point_in_edges returned another segment");
        }
    }
    // the edge a segment belongs to
    for (auto &s : segs) {
        if (s.a == s.b) { continue; }
        for (int rev = 0; rev < 2; ++rev) {
            const Pt a = rev ? s.b : s.a, b = rev ? s.a : s.b;
            bool exact = false;
            for (auto &o : segs) { exact |= o.a == a and o.b == b; }
            const auto f = net.fitting_edge(segment_type{point_type{a.x, a.y}, point_type{b.x, b.y}});
            mc::require(f.first, "no edge fits one of the network's own segments");
            if (exact) {
                bool ok = false;
                for (auto &o : segs) { ok |= o.e == f.second and o.a == a and o.b == b; }
                mc::require(ok, "the edge fitting ", a.x, ",", a.y, "->", b.x, ",", b.y, " does not contain that segment");
            }
            bool touch = false;
            for (auto &o : segs) { touch |= o.e == f.second and seg_cross(a, b, o.a, o.b); }
            mc::require(touch, "the fitting edge does not touch the segment");
        }
    }
}

static void index_suite(const std::string &name, int v, int k, bool shapes, bool loops) {
    mc::suite(name);
    const auto types = road_types(v, shapes, loops);
    multisets(types.empty() ? 1 : static_cast<int>(types.size()), types.empty() ? 0 : k, [&](const std::vector<int> &c) {
        if (not mc::mine()) { return; }
        RNet r = lattice(v, false);
        for (std::size_t i = 0; i < c.size(); ++i) { add_road(r, types[c[i]], 1 + (i + c[i]) % 3); }
        mc::exec([&] { return r.str(); }, [&] {
            Net net = make(r);
            net.build_spatial_indices();
            check_index(net, r);
            if (r.edges.size() > 1) { mc::nontrivial(); }
            mc::transition();
            mc::state(mc::hstr(r.str()));
            mc::outcome(mc::hcat(r.edges.size(), mc::hstr(r.str())));
        });
    });
}

static void grid_index_suite(const std::string &name, int w, int h) {
    mc::suite(name);
    grids(w, h, [&](const RNet &r) {
        mc::exec([&] { return r.str(); }, [&] {
            Net net = make(r);
            net.build_spatial_indices();
            check_index(net, r);
            mc::nontrivial();
            mc::transition();
            mc::state(mc::hstr(r.str()));
            mc::outcome(mc::hcat(r.edges.size(), mc::hstr(r.str())));
        });
    });
}

int main(int argc, char **argv) {
    std::string what;
    for (int i = 1; i < argc; ++i) { for (const char *w : {"--search", "--index"}) { if (std::string{argv[i]} == w) { what = w; } } }
    return mc::main_(argc, argv, [&] {
        const bool t = mc::g.thorough;
        if (what == "--search") {
            for (int k = 0; k <= 2; ++k) { search_suite("search-v3k" + std::to_string(k), 3, k, true, true, false); }
            search_suite("search-v3k3", 3, 3, true, true, false);
            search_suite("search-v4k3", 4, 3, false, false, false);
            search_suite("search-v4k4", 4, 4, false, false, false);
            search_suite("twins-v3k3", 3, 3, true, true, true);
            search_suite("twins-v4k3", 4, 3, false, false, true);
            search_suite("search-v4k3-shapes", 4, 3, true, true, false);
            search_suite("search-v3k4", 3, 4, true, true, false);
            search_suite("twins-v4k4", 4, 4, false, false, true);
            const std::vector<Bound> some{{0, -1}, {4, 1}, {5.01, 1}, {7, 1}, {10, 1}};
            grid_suite("grid-4x4", 4, 4);
            grid_suite("grid-2x9", 2, 9);
            narrow_suite<Net, Import>("narrow-line", {{0, 0}, {4, 0}, {9, 0}, {12, 0}}, 0.035, false, some);
            narrow_suite<Net, Import>("narrow-line-wide", {{0, 0}, {4, 0}, {9, 0}, {12, 0}}, 0.15, false, some);
            narrow_suite<Net, Import>("narrow-triangle", {{0, 0}, {4, 0.125}, {9, 0}}, 0.05, true, some);
            narrow_suite<Net, Import>("narrow-far", {{4400000, 5500000}, {4400004, 5500000}, {4400009, 5500000}, {4400012, 5500000}}, 0.05, false, some);
            // longitudes and latitudes: a town, the equator, and both sides of the antimeridian
            narrow_suite<GeoNet, GeoImport>("geo-town", {{11.9, 50.3}, {11.9004, 50.3}, {11.9009, 50.3001}, {11.9012, 50.3}}, 0.05, false, METRES);
            narrow_suite<GeoNet, GeoImport>("geo-north", {{11.9, 69}, {11.9004, 69.0002}, {11.8996, 69.0004}}, 0.7, true, METRES);
            narrow_suite<GeoNet, GeoImport>("geo-antimeridian", {{179.9999, 1}, {-179.9999, 1}, {179.9998, 1}}, 1.5, true, METRES);
            narrow_suite<GeoNet, GeoImport>("geo-antimeridian-4", {{179.9998, -17}, {-179.9999, -17.0001}, {-179.9998, -17}, {179.9999, -17.0001}}, 0.4, false, METRES);
            if (t) {
                grid_suite("grid-6x5", 6, 5);
                for (double bend : {0.02, 0.05, 0.1, 0.3, 1.0}) {
                    const std::string at = "-" + std::to_string(static_cast<int>(bend * 100));
                    narrow_suite<Net, Import>("narrow-square" + at, {{0, 0}, {4, 0.25}, {9, 0}, {3, 1}}, bend, true, some);
                    narrow_suite<GeoNet, GeoImport>("geo-square" + at, {{11.9, 50.3}, {11.9004, 50.3}, {11.9009, 50.3001}, {11.9012, 50.3}}, bend, true, {{0, -1}, {61, 1}});
                }
                search_suite("search-v4k5", 4, 5, false, false, false);
                search_suite("search-v4k6", 4, 6, false, false, false);
                search_suite("search-v5k4", 5, 4, false, false, false);
                search_suite("twins-v4k5", 4, 5, false, false, true);
                search_suite("twins-v3k4", 3, 4, true, true, true);
                search_suite("twins-v5k4", 5, 4, false, false, true);
            }
        }
        if (what == "--index") {
            for (int v = 0; v <= 4; ++v) { for (int k = 0; k <= 2; ++k) {
                if (v < 2 and k > 1) { continue; }
                index_suite("index-v" + std::to_string(v) + "k" + std::to_string(k), v, k, true, v > 1);
            } }
            grid_index_suite("grid-3x3", 3, 3);
            grid_index_suite("grid-6x5", 6, 5);
            index_suite("index-v3k3", 3, 3, true, true);
            index_suite("index-v5k2", 5, 2, true, true);
            index_suite("index-v4k3", 4, 3, true, true);
            index_suite("index-v5k3", 5, 3, false, true);
            index_suite("index-v4k4", 4, 4, false, false);
            if (t) { grid_index_suite("grid-9x8", 9, 8); index_suite("index-v4k4-shapes", 4, 4, true, true); index_suite("index-v5k4", 5, 4, false, true); index_suite("index-v5k3-shapes", 5, 3, true, true); }
        }
    });
}
