// N02/N03: what network preparation may change, on every small road network: simplification, removal of weakly
// unconnected parts, of duplicate nodes and of duplicate edges; --faults: every allocation of it fails once.
#include <cstdlib>
#include <new>

#include "types/geometry/network/network_import.hpp"
#include "geometry/network/traits/network.hpp"

#ifdef __has_feature
#if __has_feature(address_sanitizer)
#define MC_ASAN_OPTIONS "abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigill=0:allocator_may_return_null=1:"
#endif
#endif

#include "net_common.hpp"
#include "net_build.hpp"

using namespace map_matching_2;

// allocation faults ---------------------------------------------------------------------------------------------
static long fault_at = -1, alloc_no = 0;
static bool counting = false;

static void *checked(std::size_t n) {
    if (counting and alloc_no++ == fault_at) { throw std::bad_alloc{}; }
    void *p = std::malloc(n ? n : 1);
    if (not p) { throw std::bad_alloc{}; }
    return p;
}
void *operator new(std::size_t n) { return checked(n); }
void *operator new[](std::size_t n) { return checked(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }

using Net = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using traits = geometry::network::network_traits<Net>;
using point_type = traits::point_type;
using line_type = traits::line_type;
using rich_line_type = traits::rich_line_type;
using node_type = traits::vertex_data_type;
using edge_type = traits::edge_data_type;

static const std::vector<Pt> POS{{0, 0}, {3, 0}, {3.5, 4}, {-1, 4.5}, {8, 1}, {9, 7}};

// reads the real network back and checks its internal consistency on the way
static RNet extract(Net &net) {
    RNet r;
    auto &g = net.graph();
    std::map<std::size_t, int> at;
    auto vv = g.vertices_view();
    std::size_t n = 0;
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
        mc::require_eq(g.vertex_index(it), n, "vertex index after preparation");
        auto &v = vv[it].get();
        at[n++] = static_cast<int>(r.nodes.size());
        r.nodes.push_back({v.id, Pt{v.point.template get<0>(), v.point.template get<1>()}});
    }
    auto ev = g.edges_view();
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
        auto &e = ev[it].get();
        REdge re{e.id, at.at(g.vertex_index(g.source(it))), at.at(g.vertex_index(g.target(it))), {}};
        for (auto &p : e.rich_line.line()) { re.line.push_back({p.template get<0>(), p.template get<1>()}); }
        mc::require(re.line.size() >= 2, "an edge lost its geometry: ", re.line.size(), " points, id ", e.id);
        mc::require(re.line.front() == r.nodes[re.s].second and re.line.back() == r.nodes[re.t].second,
                "edge geometry does not start and end at its nodes, id ", e.id);
        const double len = line_len(re.line);
        if (len > 0) { mc::require_close(e.rich_line.length(), len, "length of edge ", e.id); }
        else { mc::require(not e.rich_line.has_length(), "an edge between equal points has no length"); }
        r.edges.push_back(std::move(re));
    }
    std::size_t in = 0, out = 0;
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) { in += g.in_degree(it); out += g.out_degree(it); }
    mc::require(in == r.edges.size() and out == r.edges.size(), "neighbour lists disagree with the edges: in ", in, " out ", out,
            " edges ", r.edges.size());
    return r;
}

using Seg = std::tuple<double, double, double, double, unsigned long>;

static std::multiset<Seg> segments(const RNet &r, bool with_id) {
    std::multiset<Seg> s;
    for (auto &e : r.edges) {
        for (std::size_t i = 1; i < e.line.size(); ++i) {
            s.insert({e.line[i - 1].x, e.line[i - 1].y, e.line[i].x, e.line[i].y, with_id ? e.id : 0});
        }
    }
    return s;
}

static std::set<std::string> tags_of(Net &net, unsigned long id) {
    std::set<std::string> r;
    std::size_t n = 0;
    for (auto t : net.tag_helper().edge_tags(id)) { auto p = net.tag_helper().tag(t); r.insert(p.first + "=" + p.second); ++n; }
    mc::require_eq(n, r.size(), "duplicate tags on edge id ", id);
    return r;
}

static bool reversed(const std::vector<Pt> &a, const std::vector<Pt> &b) {
    return a == std::vector<Pt>(b.rbegin(), b.rend());
}

// the documented merge situation: one way through, or a two way road through (both directions of each side match)
static bool pass_through(const RNet &r, int v, bool complete) {
    std::vector<int> in, out;
    for (int i = 0; i < static_cast<int>(r.edges.size()); ++i) {
        if (r.edges[i].t == v) { in.push_back(i); }
        if (r.edges[i].s == v) { out.push_back(i); }
    }
    auto can = [&](int i, int o) {
        return i != o and r.edges[i].s != r.edges[o].t and (complete or r.edges[i].id == r.edges[o].id);
    };
    if (in.size() == 1 and out.size() == 1) { return can(in[0], out[0]); }
    if (in.size() == 2 and out.size() == 2) {
        for (int k = 0; k < 2; ++k) {
            const int o0 = out[k], o1 = out[1 - k];
            // in[0] <-> o0 is one side, in[1] <-> o1 the other
            if (in[0] == o0 or in[1] == o1) { continue; }
            if (r.edges[in[0]].s == r.edges[o0].t and r.edges[in[1]].s == r.edges[o1].t and
                reversed(r.edges[in[0]].line, r.edges[o0].line) and reversed(r.edges[in[1]].line, r.edges[o1].line)) {
                if (r.edges[in[0]].s == v or r.edges[in[1]].s == v) { return false; }
                return can(in[0], o1) and can(in[1], o0);
            }
        }
    }
    return false;
}

static void check_routes(const RNet &before, const RNet &after, const char *what) {
    const auto d0 = all_distances(before), d1 = all_distances(after);
    for (auto &[k, d] : d1) {
        const double want = d0.at(k);
        mc::require((want > 1e17) == (d > 1e17) and (want > 1e17 or std::fabs(want - d) < 1e-9), what,
                ": route ", k.first, "->", k.second, " is ", d, ", was ", want);
    }
}

static void check_simplified(Net &net, const RNet &before, const RNet &after, bool complete, bool own_tags = true) {
    std::map<unsigned long, Pt> nodes;
    for (auto &n : before.nodes) { nodes[n.first] = n.second; }
    std::set<unsigned long> left;
    for (auto &n : after.nodes) {
        mc::require(nodes.count(n.first) and nodes[n.first] == n.second, "simplification changed node ", n.first);
        mc::require(left.insert(n.first).second, "node twice: ", n.first);
    }
    mc::require(segments(before, not complete) == segments(after, not complete), "simplification changed the road geometry");
    check_routes(before, after, "simplification changed a route");
    for (int v = 0; v < static_cast<int>(after.nodes.size()); ++v) {
        mc::require(not pass_through(after, v, complete), "node ", after.nodes[v].first, " still just joins two roads");
    }
    // only nodes that join two roads disappear
    std::map<unsigned long, std::pair<int, int>> deg;
    for (auto &e : before.edges) { ++deg[before.nodes[e.s].first].first; ++deg[before.nodes[e.t].first].second; }
    for (auto &e : after.edges) { --deg[after.nodes[e.s].first].first; --deg[after.nodes[e.t].first].second; }
    for (auto &n : after.nodes) {
        mc::require(deg[n.first].first == 0 and deg[n.first].second == 0, "remaining node ", n.first, " changed its number of roads");
    }
    for (auto &n : before.nodes) {
        if (left.count(n.first)) { continue; }
        mc::require(deg[n.first].first == deg[n.first].second and deg[n.first].first >= 1 and deg[n.first].first <= 2,
                "removed node ", n.first, " had ", deg[n.first].first, " outgoing and ", deg[n.first].second, " ingoing roads");
    }
    // tags: every piece of road keeps its tags on the edge that now carries it (and only those when ids are respected)
    std::map<Seg, std::multiset<unsigned long>> owner;
    for (auto &e : before.edges) { for (std::size_t i = 1; i < e.line.size(); ++i) {
        owner[{e.line[i - 1].x, e.line[i - 1].y, e.line[i].x, e.line[i].y, 0}].insert(e.id);
    } }
    for (auto &e : after.edges) {
        const auto tags = tags_of(net, e.id);
        mc::require(tags.count("shared=yes"), "edge ", e.id, " lost a tag");
        for (std::size_t i = 1; i < e.line.size(); ++i) {
            auto &o = owner[{e.line[i - 1].x, e.line[i - 1].y, e.line[i].x, e.line[i].y, 0}];
            bool any = not own_tags;
            for (auto id : o) { any |= tags.count("way=" + std::to_string(id)) > 0; }
            mc::require(any, "edge ", e.id, " lost the tags of a merged road");
        }
        if (not complete) { mc::require_eq(tags.size(), own_tags ? 2u : 1u, "tags of edge ", e.id, " grew without a merge of ids"); }
    }
}

static void check_components(const RNet &before, const RNet &after) {
    const int n = static_cast<int>(before.nodes.size());
    std::vector<int> c(n);
    for (int i = 0; i < n; ++i) { c[i] = i; }
    for (int r = 0; r < n; ++r) { for (auto &e : before.edges) { c[e.s] = c[e.t] = std::min(c[e.s], c[e.t]); } }
    std::map<int, std::set<unsigned long>> comp;
    for (int i = 0; i < n; ++i) { comp[c[i]].insert(before.nodes[i].first); }
    std::size_t best = 0;
    for (auto &[k, s] : comp) { best = std::max(best, s.size()); }
    std::set<unsigned long> kept;
    for (auto &x : after.nodes) { kept.insert(x.first); }
    mc::require_eq(kept.size(), best, "number of nodes of the largest weakly connected part");
    if (best == 0) { return; }
    bool whole = false;
    for (auto &[k, s] : comp) { whole |= s == kept; }
    mc::require(whole, "what remains is not one weakly connected part of the network");
    RNet want;
    for (auto &e : before.edges) { if (kept.count(before.nodes[e.s].first)) { want.edges.push_back(e); } }
    mc::require_eq(after.edges.size(), want.edges.size(), "edges of the remaining part");
    mc::require(segments(want, true) == segments(after, true), "roads of the remaining part changed");
}

static RNet quotient(const RNet &r) {
    RNet q;
    std::map<Pt, int> m;
    std::vector<int> to;
    for (auto &n : r.nodes) {
        auto it = m.find(n.second);
        if (it == m.end()) { it = m.emplace(n.second, static_cast<int>(q.nodes.size())).first; q.nodes.push_back(n); }
        to.push_back(it->second);
    }
    for (auto e : r.edges) { e.s = to[e.s]; e.t = to[e.t]; q.edges.push_back(e); }
    return q;
}

static RNet by_position(RNet r, const RNet &q) {
    for (auto &n : r.nodes) { for (auto &m : q.nodes) { if (m.second == n.second) { n.first = m.first; } } }
    return r;
}

static void check_dup_nodes(const RNet &before, const RNet &after, int mode) {
    const RNet q = quotient(before);
    std::set<Pt> pos;
    for (auto &n : after.nodes) { mc::require(pos.insert(n.second).second, "two nodes remain at ", n.second.x, ",", n.second.y); }
    std::set<unsigned long> known;
    for (auto &n : before.nodes) { known.insert(n.first); }
    for (auto &n : after.nodes) { mc::require(known.count(n.first), "unknown node ", n.first); }
    mc::require(segments(q, mode != 2) == segments(after, mode != 2), "removal of duplicate nodes changed the road geometry");
    if (mode == 0) {
        mc::require_eq(after.nodes.size(), q.nodes.size(), "number of distinct node positions");
        mc::require_eq(after.edges.size(), q.edges.size(), "number of edges");
    }
    check_routes(q, by_position(after, q), "removal of duplicate nodes changed a route");
    for (auto &n : q.nodes) {
        if (pos.count(n.second)) { continue; }
        int in = 0, out = 0;
        for (auto &e : q.edges) { out += q.nodes[e.s].second == n.second; in += q.nodes[e.t].second == n.second; }
        mc::require(mode != 0 and in == out and in >= 1 and in <= 2, "node position lost: ", n.second.x, ",", n.second.y);
    }
}

static void check_dup_edges(const RNet &before, const RNet &after) {
    mc::require_eq(after.nodes.size(), before.nodes.size(), "nodes");
    std::set<std::pair<unsigned long, std::vector<Pt>>> want, got;
    for (auto &e : before.edges) { want.insert({e.id, e.line}); }
    for (auto &e : after.edges) { mc::require(got.insert({e.id, e.line}).second, "duplicate edge remains: id ", e.id); }
    mc::require(got == want, "distinct edges changed: ", got.size(), " instead of ", want.size());
}

static mc::u64 digest(const RNet &r) { return mc::hstr(r.str()); }

// enumeration ----------------------------------------------------------------------------------------------------
static RNet base(int v) {
    RNet r;
    for (int i = 0; i < v; ++i) { r.nodes.push_back({10ul + i, POS[i]}); }
    return r;
}

static void simplify_suite(const std::string &name, int v, int k, bool shapes, bool loops, bool partial) {
    mc::suite(name);
    const auto types = road_types(v, shapes, loops);
    multisets(static_cast<int>(types.size()), k, [&](const std::vector<int> &c) {
        for (int ids = 0; ids < (partial ? 1 << (k > 0 ? k - 1 : 0) : 1); ++ids) {
            for (int complete = partial ? 0 : 1; complete < 2; ++complete) {
                if (complete and ids != 0) { continue; }
                // roads with different ids can have the same tags
                for (int own = 1; own >= (ids != 0 ? 0 : 1); --own) {
                if (not mc::mine()) { continue; }
                RNet r = base(v);
                for (int i = 0; i < k; ++i) {
                    add_road(r, types[c[i]], complete ? 1 + i % 3 : 1 + ((ids >> i) & 1));
                }
                mc::exec([&] { return r.str() + (complete ? " complete" : " by id") + (own ? "" : " same tags"); }, [&] {
                    Net net;
                    build_network(net, r, own);
                    net.simplify(complete);
                    const RNet a = extract(net);
                    check_simplified(net, r, a, complete, own);
                    net.simplify(complete);
                    mc::require_eq(digest(extract(net)), digest(a), "simplifying twice changed the network again");
                    if (a.nodes.size() != r.nodes.size()) { mc::nontrivial(); }
                    mc::transition(2);
                    mc::state(digest(r) + complete + 2 * own);
                    mc::outcome(digest(a));
                });
                }
            }
        }
    });
}

static void component_suite(const std::string &name, int v, int k) {
    mc::suite(name);
    const auto types = road_types(v, false, v <= 4);
    multisets(static_cast<int>(types.size()), types.empty() ? 0 : k, [&](const std::vector<int> &c) {
        if (not mc::mine()) { return; }
        RNet r = base(v);
        for (std::size_t i = 0; i < c.size(); ++i) { add_road(r, types[c[i]], 1 + i); }
        mc::exec([&] { return r.str(); }, [&] {
            Net net;
            build_network(net, r);
            net.remove_unconnected_components();
            const RNet a = extract(net);
            check_components(r, a);
            if (a.nodes.size() != r.nodes.size()) { mc::nontrivial(); }
            mc::transition();
            mc::state(digest(r));
            mc::outcome(digest(a));
        });
    });
}

static void dup_node_suite(const std::string &name, int v, int k) {
    mc::suite(name);
    const auto types = road_types(v, false, v <= 4);
    mc::product(std::vector<int>(v, 3), [&](const std::vector<int> &p) {
        // canonical: positions numbered in order of first use
        int seen = -1;
        for (int x : p) { if (x > seen + 1) { return; } seen = std::max(seen, x); }
        if (seen == v - 1) { return; }
        multisets(static_cast<int>(types.size()), k, [&](const std::vector<int> &c) {
            for (int mode = 0; mode < 3; ++mode) {
                if (not mc::mine()) { continue; }
                RNet r;
                for (int i = 0; i < v; ++i) { r.nodes.push_back({10ul + i, POS[p[i]]}); }
                for (int i = 0; i < k; ++i) { add_road(r, types[c[i]], 1 + (i + c[i]) % 2); }
                mc::exec([&] { return r.str() + (mode == 0 ? " keep" : mode == 1 ? " merge by id" : " merge all"); }, [&] {
                    Net net;
                    build_network(net, r);
                    net.remove_duplicate_nodes(mode != 0, mode == 2);
                    const RNet a = extract(net);
                    check_dup_nodes(r, a, mode);
                    mc::nontrivial();
                    mc::transition();
                    mc::state(digest(r) + mode);
                    mc::outcome(digest(a));
                });
            }
        });
    });
}

static void dup_edge_suite(const std::string &name, int v, int k) {
    mc::suite(name);
    const auto types = road_types(v, true, true);
    const int n = static_cast<int>(types.size());
    multisets(2 * n, k, [&](const std::vector<int> &c) {
        if (not mc::mine()) { return; }
        RNet r = base(v);
        for (int i = 0; i < k; ++i) { add_road(r, types[c[i] % n], 1 + c[i] / n); }
        mc::exec([&] { return r.str(); }, [&] {
            Net net;
            build_network(net, r);
            net.remove_duplicate_edges();
            const RNet a = extract(net);
            check_dup_edges(r, a);
            if (a.edges.size() != r.edges.size()) { mc::nontrivial(); }
            mc::transition();
            mc::state(digest(r));
            mc::outcome(digest(a));
        });
    });
}

static void pipeline_suite(const std::string &name, int v, int k) {
    mc::suite(name);
    const auto types = road_types(v, false, false);
    mc::product(std::vector<int>(v, 4), [&](const std::vector<int> &p) {
        int seen = -1;
        for (int x : p) { if (x > seen + 1) { return; } seen = std::max(seen, x); }
        if (seen == v - 1) { return; }
        multisets(static_cast<int>(types.size()), k, [&](const std::vector<int> &c) {
            for (int complete = 0; complete < 2; ++complete) {
                if (not mc::mine()) { continue; }
                RNet r;
                for (int i = 0; i < v; ++i) { r.nodes.push_back({10ul + i, POS[p[i]]}); }
                for (int i = 0; i < k; ++i) { add_road(r, types[c[i]], 1 + (i + c[i]) % 2); }
                mc::exec([&] { return r.str() + (complete ? " complete" : " by id"); }, [&] {
                    Net net;
                    build_network(net, r);
                    net.simplify(complete);
                    const RNet a = extract(net);
                    check_simplified(net, r, a, complete);
                    net.remove_unconnected_components();
                    const RNet b = extract(net);
                    check_components(a, b);
                    net.remove_duplicate_nodes(true, complete);
                    const RNet d = extract(net);
                    check_dup_nodes(b, d, complete ? 2 : 1);
                    net.remove_duplicate_edges();
                    const RNet e = extract(net);
                    check_dup_edges(d, e);
                    check_routes(d, e, "removal of duplicate edges changed a route");
                    mc::nontrivial();
                    mc::transition(4);
                    mc::state(digest(r) + complete);
                    mc::outcome(digest(e));
                });
            }
        });
    });
}

// Longer streets: chains with every pair of breaks (of id, of direction, by a side street, by a bend, by a missing road) at every two places,
// open and closed to a ring, through the single steps and all of them one after the other.
static RNet street(int n, int dir, bool ring, const std::vector<std::pair<int, int>> &breaks) {
    RNet r;
    for (int i = 0; i < n; ++i) {
        const double a = 6.283185307179586 * i / (ring ? n : 2 * n);
        r.nodes.push_back({10ul + i, {std::round(800 * std::cos(a)) / 8, std::round(800 * std::sin(a)) / 8}});
    }
    unsigned long id = 1;
    for (int i = 0; i < (ring ? n : n - 1); ++i) {
        int d = dir, shape = 0;
        bool missing = false, side = false;
        for (auto &[at, kind] : breaks) {
            if (at != i) { continue; }
            if (kind == 0) { ++id; }
            if (kind == 1) { d = (dir + 1) % 3; }
            if (kind == 2) { side = true; }
            if (kind == 3) { shape = 1; }
            if (kind == 4) { missing = true; }
        }
        if (side) {
            const int m = static_cast<int>(r.nodes.size());
            r.nodes.push_back({10ul + m, {r.nodes[i].second.x * 1.5, r.nodes[i].second.y * 1.5 + 7}});
            add_road(r, {i, m, dir == 2 ? 0 : 2, 0}, id);
        }
        if (not missing) { add_road(r, {i, (i + 1) % n, d, shape}, id); }
    }
    return r;
}

static void street_suite(const std::string &name, const std::vector<int> &sizes, bool clean) {
    mc::suite(name);
    for (int n : sizes) {
        for (int ring = 0; ring < 2; ++ring) { for (int dir = 0; dir < 3; ++dir) {
            const int places = ring ? n : n - 1;
            for (int a = 0; a < places * 5; ++a) { for (int b = a; b < places * 5; ++b) {
                for (int complete = 0; complete < 2; ++complete) {
                    if (not mc::mine()) { continue; }
                    const RNet r = street(n, dir, ring != 0, std::vector<std::pair<int, int>>{{a / 5, a % 5}, {b / 5, b % 5}});
                    mc::exec([&] { return r.str() + (complete ? " complete" : " by id"); }, [&] {
                        Net net;
                        build_network(net, r);
                        if (clean) {
                            net.remove_unconnected_components();
                            check_components(r, extract(net));
                        }
                        const RNet before = extract(net);
                        net.simplify(complete);
                        const RNet x = extract(net);
                        check_simplified(net, before, x, complete);
                        mc::nontrivial();
                        mc::transition(2);
                        mc::state(digest(r) + complete);
                        mc::outcome(digest(x));
                    });
                }
            } }
        } }
    }
}

// every single allocation made while simplifying fails once; the caller repeats the call, as the mapped storage does
static void fault_suite(const std::string &name, int v, int k, bool loops) {
    mc::suite(name);
    const auto types = road_types(v, false, loops);
    multisets(static_cast<int>(types.size()), k, [&](const std::vector<int> &c) {
        for (int complete = 0; complete < 2; ++complete) {
            if (not mc::mine()) { continue; }
            RNet r = base(v);
            for (int i = 0; i < k; ++i) { add_road(r, types[c[i]], complete ? 1 + i % 3 : 1 + (i + c[i]) % 2); }
            mc::exec([&] { return r.str() + (complete ? " complete" : " by id"); }, [&] {
                long total = 0;
                for (long f = -1; f < total; ++f) {
                    Net net;
                    build_network(net, r);
                    fault_at = f;
                    alloc_no = 0;
                    bool again;
                    int tries = 0;
                    do {
                        again = false;
                        counting = true;
                        try {
                            net.simplify(complete);
                        } catch (const std::bad_alloc &) {
                            again = true;
                        } catch (...) {
                            counting = false;
                            throw;
                        }
                        counting = false;
                        mc::require(++tries < 4, "does not recover from allocation failure ", f);
                    } while (again);
                    if (f < 0) { total = alloc_no; }
                    const RNet a = extract(net);
                    try {
                        check_simplified(net, r, a, complete);
                    } catch (const mc::Failed &e) {
                        mc::fail("allocation ", f, " of ", total, " failed and the call was repeated: ", e.msg);
                    }
                    mc::transition();
                    mc::outcome(mc::hcat(digest(a), f));
                }
                if (total > 0) { mc::nontrivial(); }
                mc::count("allocation failures injected", total);
                mc::state(digest(r) + complete);
            });
        }
    });
}

int main(int argc, char **argv) {
    std::string what;
    for (int i = 1; i < argc; ++i) {
        for (const char *w : {"--simplify", "--clean", "--faults"}) { if (std::string{argv[i]} == w) { what = w; } }
    }
    return mc::main_(argc, argv, [&] {
        const bool t = mc::g.thorough;
        if (what == "--simplify") {
            for (int k = 0; k <= 3; ++k) { simplify_suite("v4-roads" + std::to_string(k), 4, k, true, true, true); }
            for (int k = 4; k <= (t ? 6 : 5); ++k) { simplify_suite("v5-straight" + std::to_string(k), 5, k, false, false, false); }
            street_suite("street", {7, 12}, false);
            if (t) { street_suite("street-long", {9, 20, 34}, false); }
            simplify_suite("v3-loops4", 3, 4, true, true, true);
            simplify_suite("v4-ids4", 4, 4, false, true, true);
            if (t) {
                simplify_suite("v4-roads4", 4, 4, true, true, true);
                simplify_suite("v4-roads5", 4, 5, true, true, false);
                simplify_suite("v6-straight5", 6, 5, false, false, false);
            }
        }
        if (what == "--clean") {
            for (int v = 0; v <= 5; ++v) {
                for (int k = 0; k <= (v == 5 ? 3 : 4); ++k) {
                    if (v < 2 and k > 1) { continue; }
                    component_suite("components-v" + std::to_string(v) + "k" + std::to_string(k), v, k);
                }
            }
            if (t) { component_suite("components-v5k4", 5, 4); component_suite("components-v6k4", 6, 4); }
            for (int v = 2; v <= 4; ++v) { for (int k = 0; k <= 3; ++k) {
                dup_node_suite("duplicate-nodes-v" + std::to_string(v) + "k" + std::to_string(k), v, k);
            } }
            dup_node_suite("duplicate-nodes-v5k2", 5, 2);
            dup_node_suite("duplicate-nodes-v3k4", 3, 4);
            if (t) { dup_node_suite("duplicate-nodes-v4k4", 4, 4); dup_node_suite("duplicate-nodes-v5k3", 5, 3); }
            for (int k = 0; k <= 3; ++k) { dup_edge_suite("duplicate-edges-v3k" + std::to_string(k), 3, k); }
            dup_edge_suite("duplicate-edges-v2k4", 2, 4);
            if (t) { dup_edge_suite("duplicate-edges-v3k4", 3, 4); }
            street_suite("street", {8}, true);
            if (t) { street_suite("street-long", {13, 21}, true); }
            pipeline_suite("pipeline-v4k3", 4, 3);
            if (t) { pipeline_suite("pipeline-v4k4", 4, 4); pipeline_suite("pipeline-v5k3", 5, 3); }
        }
        if (what == "--faults") {
            for (int k = 1; k <= 3; ++k) { fault_suite("fault-v4k" + std::to_string(k), 4, k, true); }
            if (t) { fault_suite("fault-v5k4", 5, 4, false); }
        }
    });
}
